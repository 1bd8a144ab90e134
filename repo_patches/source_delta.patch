From 3e0b75a3af30e04b3536ef4a7f732936dffda88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:44 +0000
Subject: [PATCH 01/30] fix: do not wrap the coordinates of vertices far
 outside the image

---
 C++/DifferentiableRenderer.h | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/C++/DifferentiableRenderer.h b/C++/DifferentiableRenderer.h
index 9140bfb..cd0069d 100644
--- a/C++/DifferentiableRenderer.h
+++ b/C++/DifferentiableRenderer.h
@@ -437,6 +437,18 @@ inline void elementwise_prod_vec3(const double input1[3], const double input2[3]
 		ouput[i] = input1[i] * input2[i];
 }
 
+inline int saturate_to_short(double v)
+{
+	// conversion of an integer valued double to the range of short int, coordinates far outside the image
+	// (or NaN) must not wrap around, even when incremented afterwards
+
+	if (!(v > SHRT_MIN))
+		return SHRT_MIN;
+	if (v > SHRT_MAX - 1)
+		return SHRT_MAX - 1;
+	return (int)v;
+}
+
 short int floor_div(double a, double b, int x_min, int x_max)
 {
 
@@ -676,39 +688,39 @@ void get_triangle_stencil_equations(double Vxy[][2], double bary_to_xy1[9], doub
 	// computing x bounds
 	if (strict_edge)
 	{
-		x_min = (short)floor(x_sorted[0]);
+		x_min = saturate_to_short(floor(x_sorted[0]));
 	}
 	else
 	{
-		x_min = (short)ceil(x_sorted[0]);
+		x_min = saturate_to_short(ceil(x_sorted[0]));
 	}
 
-	x_max = (short)floor(x_sorted[2]);
+	x_max = saturate_to_short(floor(x_sorted[2]));
 
 	// limit upper part
 	if (strict_edge)
 	{
 
-		y_begin[0] = (short)floor(y_sorted[0]) + 1;
+		y_begin[0] = saturate_to_short(floor(y_sorted[0])) + 1;
 	}
 	else
 	{
 
-		y_begin[0] = (short)ceil(y_sorted[0]);
+		y_begin[0] = saturate_to_short(ceil(y_sorted[0]));
 	}
 
-	y_end[0] = (short)floor(y_sorted[1]);
+	y_end[0] = saturate_to_short(floor(y_sorted[1]));
 
 	// limit lower part
 	if (strict_edge)
 	{
-		y_begin[1] = (short)floor(y_sorted[1]) + 1;
+		y_begin[1] = saturate_to_short(floor(y_sorted[1])) + 1;
 	}
 	else
 	{
-		y_begin[1] = (short)ceil(y_sorted[1]);
+		y_begin[1] = saturate_to_short(ceil(y_sorted[1]));
 	}
-	y_end[1] = (short)floor(y_sorted[2]);
+	y_end[1] = saturate_to_short(floor(y_sorted[2]));
 
 	// set left_edge_id and right_edge_id
 
@@ -1440,7 +1452,7 @@ void get_edge_stencil_equations(double Vxy[][2], int height, int width, double s
 	for (short int k = 0; k < 2; k++)
 	{
 		if (Vxy[k][1] - sigma < y_begin)
-			y_begin = (int)floor(Vxy[k][1] - sigma) + 1;
+			y_begin = saturate_to_short(floor(Vxy[k][1] - sigma)) + 1;
 	}
 	if (y_begin < 0)
 	{
@@ -1451,7 +1463,7 @@ void get_edge_stencil_equations(double Vxy[][2], int height, int width, double s
 	for (short int k = 0; k < 2; k++)
 	{
 		if (Vxy[k][1] + sigma > y_end)
-			y_end = (int)floor(Vxy[k][1] + sigma);
+			y_end = saturate_to_short(floor(Vxy[k][1] + sigma));
 	}
 	if (y_end > height - 1)
 	{
-- 
2.43.0


From 40792f553210a877836d6523a1ffb4cdb93ef06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:44 +0000
Subject: [PATCH 02/30] fix: do not paint beyond an horizontal edge lying on a
 row of pixel centers with non strict edges

---
 C++/DifferentiableRenderer.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/C++/DifferentiableRenderer.h b/C++/DifferentiableRenderer.h
index cd0069d..a5d74dc 100644
--- a/C++/DifferentiableRenderer.h
+++ b/C++/DifferentiableRenderer.h
@@ -722,6 +722,20 @@ void get_triangle_stencil_equations(double Vxy[][2], double bary_to_xy1[9], doub
 	}
 	y_end[1] = saturate_to_short(floor(y_sorted[2]));
 
+	// with non strict edges an horizontal edge lying on a row of pixel centers does not bound that row,
+	// which is rasterized with the other half of the triangle
+	if (!strict_edge)
+	{
+		if (y_sorted[0] == y_sorted[1])
+		{
+			y_end[0] = y_begin[0] - 1;
+		}
+		if (y_sorted[1] == y_sorted[2])
+		{
+			y_end[1] = y_begin[1] - 1;
+		}
+	}
+
 	// set left_edge_id and right_edge_id
 
 	int id;
-- 
2.43.0


From 43f63b7f2676e9c519df4173212cbceb0d27a33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:44 +0000
Subject: [PATCH 03/30] fix: antialias the silhouette edges that are exactly
 horizontal or vertical

---
 C++/DifferentiableRenderer.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/C++/DifferentiableRenderer.h b/C++/DifferentiableRenderer.h
index a5d74dc..145d770 100644
--- a/C++/DifferentiableRenderer.h
+++ b/C++/DifferentiableRenderer.h
@@ -2662,7 +2662,7 @@ void get_edge_xrange_from_ineq(double ineq[12], int width, int y, int &x_begin,
 				x_end = temp_x;
 			}
 		}
-		else
+		else if (ineq[3 * k] > 0)
 		{
 			short int temp_x = 1 + floor_div(numerator, ineq[3 * k], x_begin - 1, x_end + 1);
 			if (temp_x > x_begin)
@@ -2670,6 +2670,11 @@ void get_edge_xrange_from_ineq(double ineq[12], int width, int y, int &x_begin,
 				x_begin = temp_x;
 			}
 		}
+		else if (numerator >= 0)
+		{
+			// the inequality does not depend on x and is not satisfied on this line
+			x_end = x_begin - 1;
+		}
 	}
 }
 
-- 
2.43.0


From 1f5db985ca39e2662c52d3f0591963bd385f9f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:44 +0000
Subject: [PATCH 04/30] fix: do not draw degenerate triangles and triangles
 behind the camera without backface culling

---
 C++/DifferentiableRenderer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/C++/DifferentiableRenderer.h b/C++/DifferentiableRenderer.h
index 145d770..4e2ae9d 100644
--- a/C++/DifferentiableRenderer.h
+++ b/C++/DifferentiableRenderer.h
@@ -2814,7 +2814,7 @@ void renderScene(Scene scene, double *image, double *z_buffer, double sigma, boo
 	float pixel_center_offset = scene.integer_pixel_centers ? 0 : 0.5;
 
 	for (int k = 0; k < scene.nb_triangles; k++)
-		if ((signedAreaV[k] > 0) || (!scene.backface_culling))
+		if ((signedAreaV[k] > 0) || (!scene.backface_culling && signedAreaV[k] < 0)) // signedAreaV is 0 for triangles behind the camera
 		{
 			unsigned int *face = &scene.faces[k * 3];
 			double ij[3][2];
-- 
2.43.0


From d5f6c6a98a86d272a691fe4393dc7e5e8a6540a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:44 +0000
Subject: [PATCH 05/30] fix: accumulate the gradient of the texture instead of
 overwriting it

---
 C++/DifferentiableRenderer.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/C++/DifferentiableRenderer.h b/C++/DifferentiableRenderer.h
index 4e2ae9d..bcbdce0 100644
--- a/C++/DifferentiableRenderer.h
+++ b/C++/DifferentiableRenderer.h
@@ -630,10 +630,10 @@ void bilinear_sample_B(T *A, T *A_B, T I[], T I_B[], int *I_size, double p[2], d
 		e_B[0] += t1_B * (I[indx10 + k] - I[indx00 + k]);
 		e_B[0] += t2_B * (I[indx11 + k] - I[indx01 + k]);
 
-		I_B[indx00 + k] = (1 - e[0]) * (1 - e[1]) * A_B[k];
-		I_B[indx10 + k] = e[0] * (1 - e[1]) * A_B[k];
-		I_B[indx01 + k] = (1 - e[0]) * e[1] * A_B[k];
-		I_B[indx11 + k] = e[0] * e[1] * A_B[k];
+		I_B[indx00 + k] += (1 - e[0]) * (1 - e[1]) * A_B[k];
+		I_B[indx10 + k] += e[0] * (1 - e[1]) * A_B[k];
+		I_B[indx01 + k] += (1 - e[0]) * e[1] * A_B[k];
+		I_B[indx11 + k] += e[0] * e[1] * A_B[k];
 	}
 	for (int k = 0; k < 2; k++)
 	{
-- 
2.43.0


From cd3b8701e7488f1b47752c06c24a9d57b0ff7aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:44 +0000
Subject: [PATCH 06/30] fix: no NaN gradient when a pixel center is exactly on
 a silhouette edge

---
 C++/DifferentiableRenderer.h | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/C++/DifferentiableRenderer.h b/C++/DifferentiableRenderer.h
index bcbdce0..e1f6ba1 100644
--- a/C++/DifferentiableRenderer.h
+++ b/C++/DifferentiableRenderer.h
@@ -1761,7 +1761,10 @@ void rasterize_edge_interpolated_B(double Vxy[][2], double Vxy_B[][2], Te image[
 
 					// restoring the color before edge drawned
 
-					image[sizeA * indx + k] = (image[sizeA * indx + k] - (1 - T) * A) / T;
+					// (nothing of it remains when the pixel center is exactly on the edge)
+
+					if (T != 0)
+						image[sizeA * indx + k] = (image[sizeA * indx + k] - (1 - T) * A) / T;
 
 					T_B += image_B[sizeA * indx + k] * image[sizeA * indx + k];
 
@@ -2038,7 +2041,8 @@ void rasterize_edge_textured_gouraud_B(double Vxy[][2], double Vxy_B[][2], doubl
 					T_B += -image_B[sizeA * indx + k] * A[k] * L;
 					A_B[k] += L * (1 - T) * image_B[sizeA * indx + k];
 					L_B += image_B[sizeA * indx + k] * (1 - T) * A[k];
-					image[sizeA * indx + k] = (image[sizeA * indx + k] - (1 - T) * A[k] * L) / T;
+					if (T != 0)
+						image[sizeA * indx + k] = (image[sizeA * indx + k] - (1 - T) * A[k] * L) / T;
 					T_B += image_B[sizeA * indx + k] * image[sizeA * indx + k];
 					image_B[sizeA * indx + k] *= T;
 				}
@@ -2333,8 +2337,11 @@ void rasterize_edge_textured_gouraud_error_B(double Vxy[][2], double Vxy_B[][2],
 				//	err_buffer[indx]+= (1-Tr)*Err;
 				Tr_B += -Err * err_buffer_B[indx];
 				Err_B += (1 - Tr) * err_buffer_B[indx];
-				err_buffer[indx] -= (1 - Tr) * Err;
-				err_buffer[indx] /= Tr;
+				if (Tr != 0)
+				{
+					err_buffer[indx] -= (1 - Tr) * Err;
+					err_buffer[indx] /= Tr;
+				}
 				Tr_B += err_buffer_B[indx] * err_buffer[indx];
 				err_buffer_B[indx] *= Tr;
 
@@ -2597,8 +2604,11 @@ void rasterize_edge_interpolated_error_B(double Vxy[][2], double Vxy_B[][2], dou
 				//	err_buffer[indx]+= (1-Tr)*Err;
 				Tr_B += -Err * err_buffer_B[indx];
 				Err_B += (1 - Tr) * err_buffer_B[indx];
-				err_buffer[indx] -= (1 - Tr) * Err;
-				err_buffer[indx] /= Tr;
+				if (Tr != 0)
+				{
+					err_buffer[indx] -= (1 - Tr) * Err;
+					err_buffer[indx] /= Tr;
+				}
 				Tr_B += err_buffer_B[indx] * err_buffer[indx];
 				err_buffer_B[indx] *= Tr;
 
-- 
2.43.0


From 8c4fa5c60911d0b33e08f6265198726f40463cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:44 +0000
Subject: [PATCH 07/30] fix: no access outside the texture when a dimension is
 1 or when texture coordinates are huge

---
 C++/DifferentiableRenderer.h | 42 +++++++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/C++/DifferentiableRenderer.h b/C++/DifferentiableRenderer.h
index e1f6ba1..e67c524 100644
--- a/C++/DifferentiableRenderer.h
+++ b/C++/DifferentiableRenderer.h
@@ -530,6 +530,18 @@ short int ceil_div(double a, double b, int x_min, int x_max)
 	return x;
 }
 
+inline int texel_floor(double p)
+{
+	// floor of a texture coordinate, coordinates far outside the texture (or NaN) must not overflow
+
+	const int limit = 1 << 30;
+	if (!(p > -limit))
+		return -limit;
+	if (p > limit)
+		return limit;
+	return (int)floor(p);
+}
+
 template <class T>
 void bilinear_sample(T *A, T I[], int *I_size, double p[2], int sizeA)
 {
@@ -541,7 +553,7 @@ void bilinear_sample(T *A, T I[], int *I_size, double p[2], int sizeA)
 
 	for (int k = 0; k < 2; k++)
 	{
-		fp[k] = (int)floor(p[k]);
+		fp[k] = texel_floor(p[k]);
 		e[k] = p[k] - fp[k];
 	}
 
@@ -556,16 +568,19 @@ void bilinear_sample(T *A, T I[], int *I_size, double p[2], int sizeA)
 		}
 		if (fp[k] > I_size[k] - 2)
 		{
-			fp[k] = I_size[k] - 2;
-			e[k] = 1;
+			fp[k] = max(I_size[k] - 2, 0);
+			e[k] = I_size[k] > 1 ? 1 : 0;
 		}
 	}
 	// bilinear interpolation
 
+	// there is no next texel along a dimension of size 1
+	int step[2] = {I_size[0] > 1 ? 1 : 0, I_size[1] > 1 ? 1 : 0};
+
 	int indx00 = sizeA * (fp[0] + I_size[0] * fp[1]);
-	int indx10 = sizeA * (fp[0] + 1 + I_size[0] * fp[1]);
-	int indx01 = sizeA * (fp[0] + I_size[0] * (fp[1] + 1));
-	int indx11 = sizeA * (fp[0] + 1 + I_size[0] * (fp[1] + 1));
+	int indx10 = sizeA * (fp[0] + step[0] + I_size[0] * fp[1]);
+	int indx01 = sizeA * (fp[0] + I_size[0] * (fp[1] + step[1]));
+	int indx11 = sizeA * (fp[0] + step[0] + I_size[0] * (fp[1] + step[1]));
 
 	for (int k = 0; k < sizeA; k++)
 		A[k] = ((1 - e[0]) * I[indx00 + k] + e[0] * I[indx10 + k]) * (1 - e[1]) + ((1 - e[0]) * I[indx01 + k] + e[0] * I[indx11 + k]) * e[1];
@@ -584,7 +599,7 @@ void bilinear_sample_B(T *A, T *A_B, T I[], T I_B[], int *I_size, double p[2], d
 
 	for (int k = 0; k < 2; k++)
 	{
-		fp[k] = (int)floor(p[k]);
+		fp[k] = texel_floor(p[k]);
 		e[k] = p[k] - fp[k];
 	}
 
@@ -601,17 +616,20 @@ void bilinear_sample_B(T *A, T *A_B, T I[], T I_B[], int *I_size, double p[2], d
 		if (fp[k] > I_size[k] - 2)
 		{
 			out[k] = true;
-			fp[k] = I_size[k] - 2;
-			e[k] = 1;
+			fp[k] = max(I_size[k] - 2, 0);
+			e[k] = I_size[k] > 1 ? 1 : 0;
 		}
 	}
 
 	// bilinear interpolation
 
+	// there is no next texel along a dimension of size 1
+	int step[2] = {I_size[0] > 1 ? 1 : 0, I_size[1] > 1 ? 1 : 0};
+
 	int indx00 = sizeA * (fp[0] + I_size[0] * fp[1]);
-	int indx10 = sizeA * (fp[0] + 1 + I_size[0] * fp[1]);
-	int indx01 = sizeA * (fp[0] + I_size[0] * (fp[1] + 1));
-	int indx11 = sizeA * (fp[0] + 1 + I_size[0] * (fp[1] + 1));
+	int indx10 = sizeA * (fp[0] + step[0] + I_size[0] * fp[1]);
+	int indx01 = sizeA * (fp[0] + I_size[0] * (fp[1] + step[1]));
+	int indx11 = sizeA * (fp[0] + step[0] + I_size[0] * (fp[1] + step[1]));
 
 	//for(int k=0;k<sizeA;k++)
 	//	A[k]=( (1-e[0])*I[indx00+k] + e[0]*I[indx10+k] )*(1-e[1])+( (1-e[0])*I[indx01+k] + e[0]*I[indx11+k] )*e[1];
-- 
2.43.0


From f2eb4fed0680aab2dda7cb9ac7cdb7b917c85803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:53 +0000
Subject: [PATCH 08/30] fix: do not paint the last column for triangles lying
 beyond it with non strict edges

---
 C++/DifferentiableRenderer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/C++/DifferentiableRenderer.h b/C++/DifferentiableRenderer.h
index e67c524..6417c80 100644
--- a/C++/DifferentiableRenderer.h
+++ b/C++/DifferentiableRenderer.h
@@ -936,7 +936,7 @@ inline void get_xrange(int width, const double *left_eq, const double *right_eq,
 	else
 	{
 		// pixels falling exactly on an edge shared by two triangle will be drawn twice
-		temp_x = ceil_div(numerator, left_eq[0], x_min - 1, x_max);
+		temp_x = ceil_div(numerator, left_eq[0], x_min - 1, x_max + 1);
 	}
 	if (temp_x > x_begin)
 		x_begin = temp_x;
-- 
2.43.0


From 6d548e5b32057892cb12ef930371910bdae46f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:03 +0000
Subject: [PATCH 09/30] fix: no read beyond the two vertices of a silhouette
 edge with perspective correction

---
 C++/DifferentiableRenderer.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/C++/DifferentiableRenderer.h b/C++/DifferentiableRenderer.h
index 6417c80..025fe40 100644
--- a/C++/DifferentiableRenderer.h
+++ b/C++/DifferentiableRenderer.h
@@ -425,15 +425,15 @@ inline void sort3(const double v[3], double sv[3], short int i[3])
 	}
 }
 
-inline void elementwise_inverse_vec3(const double input[3], double ouput[3])
+inline void elementwise_inverse_vec3(const double input[3], double ouput[3], int size = 3)
 {
-	for (int i = 0; i < 3; i++)
+	for (int i = 0; i < size; i++)
 		ouput[i] = 1 / input[i];
 }
 
-inline void elementwise_prod_vec3(const double input1[3], const double input2[3], double ouput[3])
+inline void elementwise_prod_vec3(const double input1[3], const double input2[3], double ouput[3], int size = 3)
 {
-	for (int i = 0; i < 3; i++)
+	for (int i = 0; i < size; i++)
 		ouput[i] = input1[i] * input2[i];
 }
 
@@ -1604,7 +1604,7 @@ void rasterize_edge_interpolated(double Vxy[][2], Te image[], Te *Avertex[], dou
 	if (perspective_correct)
 	{
 		double inv_Zvertex[3];
-		elementwise_inverse_vec3(Zvertex, inv_Zvertex);
+		elementwise_inverse_vec3(Zvertex, inv_Zvertex, 2);
 		mul_matrix(1, 2, 3, xy1_to_Z, inv_Zvertex, xy1_to_bary);
 
 		xy1_to_A = new double[3 * sizeA];
@@ -1852,8 +1852,8 @@ void rasterize_edge_textured_gouraud(double Vxy[][2], double Zvertex[2], double
 		double inv_Zvertex[3];
 		double ShadeVertex_div_z[3];
 
-		elementwise_inverse_vec3(Zvertex, inv_Zvertex);
-		elementwise_prod_vec3(inv_Zvertex, ShadeVertex, ShadeVertex_div_z);
+		elementwise_inverse_vec3(Zvertex, inv_Zvertex, 2);
+		elementwise_prod_vec3(inv_Zvertex, ShadeVertex, ShadeVertex_div_z, 2);
 		mul_matrix(1, 2, 3, xy1_to_Z, inv_Zvertex, xy1_to_bary);
 		mul_matrix(1, 2, 3, xy1_to_L, ShadeVertex_div_z, xy1_to_bary);
 
@@ -2139,8 +2139,8 @@ void rasterize_edge_textured_gouraud_error(double Vxy[][2], double Zvertex[2], d
 	{
 		double inv_Zvertex[3];
 		double ShadeVertex_div_z[3];
-		elementwise_inverse_vec3(Zvertex, inv_Zvertex);
-		elementwise_prod_vec3(inv_Zvertex, ShadeVertex, ShadeVertex_div_z);
+		elementwise_inverse_vec3(Zvertex, inv_Zvertex, 2);
+		elementwise_prod_vec3(inv_Zvertex, ShadeVertex, ShadeVertex_div_z, 2);
 		mul_matrix(1, 2, 3, xy1_to_Z, inv_Zvertex, xy1_to_bary);
 		mul_matrix(1, 2, 3, xy1_to_L, ShadeVertex_div_z, xy1_to_bary);
 
@@ -2441,7 +2441,7 @@ void rasterize_edge_interpolated_error(double Vxy[][2], double Zvertex[2], T *Av
 	if (perspective_correct)
 	{
 		double inv_Zvertex[3];
-		elementwise_inverse_vec3(Zvertex, inv_Zvertex);
+		elementwise_inverse_vec3(Zvertex, inv_Zvertex, 2);
 		mul_matrix(1, 2, 3, xy1_to_Z, inv_Zvertex, xy1_to_bary);
 		for (int i = 0; i < sizeA; i++)
 		{
-- 
2.43.0


From 9d70384993db38f5ad6c48321f258a2b08cbcfd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:48 +0000
Subject: [PATCH 10/30] fix: use the transposed Jacobians in
 Camera.project_points_backward

---
 deodr/differentiable_renderer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/deodr/differentiable_renderer.py b/deodr/differentiable_renderer.py
index 0022cca..f0285ef 100644
--- a/deodr/differentiable_renderer.py
+++ b/deodr/differentiable_renderer.py
@@ -396,7 +396,7 @@ class Camera:
     ) -> np.ndarray:
         if self.distortion is None:
             p_camera, depths, projected = store_backward["project_points"]
-            projected_b = projected_image_coordinates_b.dot(self.intrinsic[:2, :2].T)  # not sure about transpose
+            projected_b = projected_image_coordinates_b.dot(self.intrinsic[:2, :2])
 
         else:
             p_camera, depths, projected, r2, radial_distortion = store_backward["project_points"]
@@ -409,7 +409,7 @@ class Camera:
             ) = self.distortion
             x = projected[:, 0]
             y = projected[:, 1]
-            distorted_b = projected_image_coordinates_b.dot(self.intrinsic[:2, :2].T)  # not sure about transpose
+            distorted_b = projected_image_coordinates_b.dot(self.intrinsic[:2, :2])
             distorted_x_b = distorted_b[:, 0]
             distorted_y_b = distorted_b[:, 1]
             x_b = distorted_x_b * radial_distortion
@@ -435,7 +435,7 @@ class Camera:
         )
         if depths_b is not None:
             p_camera_b[:, 2] += depths_b
-        return p_camera_b.dot(self.extrinsic[:3, :3].T)
+        return p_camera_b.dot(self.extrinsic[:3, :3])
 
     def get_center(self) -> np.ndarray:
         return -self.extrinsic[:3, :3].T.dot(self.extrinsic[:, 3])
-- 
2.43.0


From 01ee6f9b2f4444fa04cecb531c0fddcc71e82306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:10 +0000
Subject: [PATCH 11/30] fix: place the centre of PerspectiveCamera where
 requested for every rotation

---
 deodr/differentiable_renderer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deodr/differentiable_renderer.py b/deodr/differentiable_renderer.py
index f0285ef..e24bba1 100644
--- a/deodr/differentiable_renderer.py
+++ b/deodr/differentiable_renderer.py
@@ -485,7 +485,7 @@ class PerspectiveCamera(Camera):
         focal_x = focal
         pixel_aspect_ratio = 1
         focal_y = focal * pixel_aspect_ratio
-        trans = -rot.T.dot(camera_center)
+        trans = -rot.dot(camera_center)
         cx = width / 2
         cy = height / 2
         intrinsic = np.array([[focal_x, 0, cx], [0, focal_y, cy], [0, 0, 1]])
-- 
2.43.0


From f4f4ea62e79a175f2e66ab52a65a13871c5ac4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:09 +0000
Subject: [PATCH 12/30] fix: use the background image and the perspective
 correction in Scene3D.render_depth

---
 deodr/differentiable_renderer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/deodr/differentiable_renderer.py b/deodr/differentiable_renderer.py
index e24bba1..ba248ea 100644
--- a/deodr/differentiable_renderer.py
+++ b/deodr/differentiable_renderer.py
@@ -1027,7 +1027,9 @@ class Scene3D:
             clockwise=self.mesh.clockwise,
             backface_culling=backface_culling,
             strict_edge=True,
+            background_image=self.background_image,
             background_color=self.background_color,
+            perspective_correct=self.perspective_correct,
             integer_pixel_centers=self.integer_pixel_centers,
         )
         self.scene_2d = scene_2d
-- 
2.43.0


From 9d20e44fdf85bd8b7afc9e3d88b199619a5ff721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:18 +0000
Subject: [PATCH 13/30] fix: honour orientation, perspective correction, depth
 scale and channel count in Scene3D.render_deferred

---
 deodr/differentiable_renderer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/deodr/differentiable_renderer.py b/deodr/differentiable_renderer.py
index ba248ea..f6d6155 100644
--- a/deodr/differentiable_renderer.py
+++ b/deodr/differentiable_renderer.py
@@ -1118,7 +1118,7 @@ class Scene3D:
         if self.mesh.uv is None:
             if color:
                 assert self.mesh.vertices_colors is not None
-                soup_vertices_colors = self.mesh.vertices_colors[self.mesh.faces].reshape(soup_nb_vertices, 3)
+                soup_vertices_colors = self.mesh.vertices_colors[self.mesh.faces].reshape(soup_nb_vertices, -1)
                 channels["color"] = soup_vertices_colors
         elif uv:
             soup_uv = self.mesh.uv[self.mesh.faces_uv].reshape(soup_nb_vertices, 2)
@@ -1145,7 +1145,7 @@ class Scene3D:
 
         background_image = np.zeros((height, width, nb_colors))
         if "depth" in channels:
-            background_image[:, :, ranges["depth"][0] : ranges["depth"][1]] = depths.max()
+            background_image[:, :, ranges["depth"][0] : ranges["depth"][1]] = depths.max() * depth_scale
 
         scene_2d = Scene2DBase(
             faces=soup_faces,
@@ -1163,8 +1163,10 @@ class Scene3D:
             nb_colors=nb_colors,
             texture=texture,
             background_image=background_image,
+            clockwise=self.mesh.clockwise,
             backface_culling=backface_culling,
             background_color=None,
+            perspective_correct=self.perspective_correct,
             integer_pixel_centers=self.integer_pixel_centers,
         )
         buffers = np.empty((camera.height, camera.width, nb_colors))
-- 
2.43.0


From 8340ad3f6108d6346addeec193173795f79da560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:10 +0000
Subject: [PATCH 14/30] fix: compare the whole image with the observation in
 MeshRGBFitterWithPoseMultiFrame

---
 deodr/mesh_fitter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deodr/mesh_fitter.py b/deodr/mesh_fitter.py
index 9e34612..724594c 100644
--- a/deodr/mesh_fitter.py
+++ b/deodr/mesh_fitter.py
@@ -536,11 +536,11 @@ class MeshRGBFitterWithPoseMultiFrame:
         for idframe in range(self.nb_frames):
             image = self.render(idframe=idframe)
 
-            diff_image = np.sum((image[idframe] - self.mesh_images[idframe]) ** 2, axis=2)
+            diff_image = np.sum((image - self.mesh_images[idframe]) ** 2, axis=2)
             images.append(image)
             diff_images.append(diff_image)
 
-            image_b = coef_data * 2 * (image[idframe] - self.mesh_images[idframe])
+            image_b = coef_data * 2 * (image - self.mesh_images[idframe])
             energy_data_image = coef_data * np.sum(diff_image)
             energy_datas.append(energy_data_image)
             self.render_backward(image_b)
-- 
2.43.0


From dcc4577db90dbb4a96beb4d9023c788c54ff52ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:20 +0000
Subject: [PATCH 15/30] fix: honour update_lights and update_color in the numpy
 colour fitters

---
 deodr/mesh_fitter.py | 56 ++++++++++++++++++++++++--------------------
 1 file changed, 30 insertions(+), 26 deletions(-)

diff --git a/deodr/mesh_fitter.py b/deodr/mesh_fitter.py
index 724594c..230eb6f 100644
--- a/deodr/mesh_fitter.py
+++ b/deodr/mesh_fitter.py
@@ -357,19 +357,21 @@ class MeshRGBFitterWithPose:
         )
         self.transform_translation = self.transform_translation + self.speed_translation
         # update directional light
-        step = -self.light_directional_b * 0.0001
-        self.speed_light_directional = (1 - self.damping) * (
-            self.speed_light_directional * inertia + (1 - inertia) * step
-        )
-        self.light_directional = self.light_directional + self.speed_light_directional
-        # update ambient light
-        step = -self.light_ambient_b * 0.0001
-        self.speed_light_ambient = (1 - self.damping) * (self.speed_light_ambient * inertia + (1 - inertia) * step)
-        self.light_ambient = self.light_ambient + self.speed_light_ambient
+        if self.update_lights:
+            step = -self.light_directional_b * 0.0001
+            self.speed_light_directional = (1 - self.damping) * (
+                self.speed_light_directional * inertia + (1 - inertia) * step
+            )
+            self.light_directional = self.light_directional + self.speed_light_directional
+            # update ambient light
+            step = -self.light_ambient_b * 0.0001
+            self.speed_light_ambient = (1 - self.damping) * (self.speed_light_ambient * inertia + (1 - inertia) * step)
+            self.light_ambient = self.light_ambient + self.speed_light_ambient
         # update mesh color
-        step = -self.mesh_color_b * 0.00001
-        self.speed_mesh_color = (1 - self.damping) * (self.speed_mesh_color * inertia + (1 - inertia) * step)
-        self.mesh_color = self.mesh_color + self.speed_mesh_color
+        if self.update_color:
+            step = -self.mesh_color_b * 0.00001
+            self.speed_mesh_color = (1 - self.damping) * (self.speed_mesh_color * inertia + (1 - inertia) * step)
+            self.mesh_color = self.mesh_color + self.speed_mesh_color
 
         self.iter += 1
         return energy, image, diff_image
@@ -612,21 +614,23 @@ class MeshRGBFitterWithPoseMultiFrame:
         )
         self.transform_translation = self.transform_translation + self.speed_translation
         # update directional light
-        step = -self.light_directional_b * 0.0001
-        self.speed_light_directional = (1 - self.damping) * (
-            self.speed_light_directional * inertia + (1 - inertia) * step
-        )
-        self.light_directional = self.light_directional + self.speed_light_directional
-        # update ambient light
-        step_light_ambient = -self.light_ambient_b * 0.0001
-        self.speed_light_ambient = (1 - self.damping) * (
-            self.speed_light_ambient * inertia + (1 - inertia) * step_light_ambient
-        )
-        self.light_ambient = self.light_ambient + self.speed_light_ambient
+        if self.update_lights:
+            step = -self.light_directional_b * 0.0001
+            self.speed_light_directional = (1 - self.damping) * (
+                self.speed_light_directional * inertia + (1 - inertia) * step
+            )
+            self.light_directional = self.light_directional + self.speed_light_directional
+            # update ambient light
+            step_light_ambient = -self.light_ambient_b * 0.0001
+            self.speed_light_ambient = (1 - self.damping) * (
+                self.speed_light_ambient * inertia + (1 - inertia) * step_light_ambient
+            )
+            self.light_ambient = self.light_ambient + self.speed_light_ambient
         # update mesh color
-        step = -self.mesh_color_b * 0.00001
-        self.speed_mesh_color = (1 - self.damping) * (self.speed_mesh_color * inertia + (1 - inertia) * step)
-        self.mesh_color = self.mesh_color + self.speed_mesh_color
+        if self.update_color:
+            step = -self.mesh_color_b * 0.00001
+            self.speed_mesh_color = (1 - self.damping) * (self.speed_mesh_color * inertia + (1 - inertia) * step)
+            self.mesh_color = self.mesh_color + self.speed_mesh_color
 
         self.iter += 1
         return energy, image, diff_image
-- 
2.43.0


From 1bb830073c48983afd4e3ae94a773079d0b21745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:32 +0000
Subject: [PATCH 16/30] fix: keep the clockwise flag in loop_subdivision

---
 deodr/triangulated_mesh.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/deodr/triangulated_mesh.py b/deodr/triangulated_mesh.py
index 25806e8..3054700 100644
--- a/deodr/triangulated_mesh.py
+++ b/deodr/triangulated_mesh.py
@@ -557,6 +557,7 @@ def loop_subdivision(mesh: ColoredTriMesh, n_iter: int = 1) -> ColoredTriMesh:
     return ColoredTriMesh(
         vertices=new_vertices,
         faces=new_faces,
+        clockwise=mesh.clockwise,
         colors=new_colors,
         nb_colors=mesh.nb_colors,
     )
-- 
2.43.0


From a0f07ab0369fa69b52c8ec946aa2b428e1a4d158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:32 +0000
Subject: [PATCH 17/30] fix: read only vertex records as vertices, relative
 indices and continued lines in OBJ files

---
 deodr/obj.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/deodr/obj.py b/deodr/obj.py
index 0651322..2ccc62f 100644
--- a/deodr/obj.py
+++ b/deodr/obj.py
@@ -23,10 +23,10 @@ def read_obj(filename: str) -> Tuple[np.ndarray, np.ndarray]:
         line = fid.readline()
         if not line:
             break
-        while line.endswith("\\"):
+        while line.endswith("\\\n"):
             # Remove backslash and concatenate with next line
-            line = line[:-1] + fid.readline()
-        if line.startswith("v"):
+            line = line[:-2] + fid.readline()
+        if line.startswith("v "):
             coord = line.split()
             coord.pop(0)
             node_counter += 1
@@ -39,10 +39,9 @@ def read_obj(filename: str) -> Tuple[np.ndarray, np.ndarray]:
             # in some obj faces are defined as -70//-70 -69//-69 -62//-62
             cleaned_fields: List[int] = []
             for f in fields:
-                v = int(f.split("/")[0]) - 1
-                if v < 0:
-                    v = node_counter + v
-                cleaned_fields.append(v)
+                v = int(f.split("/")[0])
+                # negative indices are relative to the last vertex read so far
+                cleaned_fields.append(v - 1 if v > 0 else node_counter + v)
             faces.append(np.array(cleaned_fields))
 
     faces_np = np.vstack(faces)
-- 
2.43.0


From 7118adc544502d85d39b1d5cd3951883d04be12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:41 +0000
Subject: [PATCH 18/30] fix: multiply the gradient of the masked image loss by
 the mask twice (the loss squares the masked difference)

---
 deodr/differentiable_renderer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deodr/differentiable_renderer.py b/deodr/differentiable_renderer.py
index f6d6155..f978599 100644
--- a/deodr/differentiable_renderer.py
+++ b/deodr/differentiable_renderer.py
@@ -728,7 +728,7 @@ class Scene2D(Scene2DBase):
             diff_image = (image - obs) * mask[:, :, None]
             err_buffer = (diff_image) ** 2
             err = float(np.sum(err_buffer))
-            image_b = 2 * diff_image
+            image_b = 2 * diff_image * mask[:, :, None]
             self.render_backward(image_b, make_copies=make_copies)
 
         return image, z_buffer, err_buffer, err
-- 
2.43.0


From fb62cd5bc5be6476e101791e9e594338e1945026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:28 +0000
Subject: [PATCH 19/30] fix: write the viewport of MeshLab cameras as width and
 height

---
 deodr/meshlab_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deodr/meshlab_io.py b/deodr/meshlab_io.py
index a962218..c8b4470 100644
--- a/deodr/meshlab_io.py
+++ b/deodr/meshlab_io.py
@@ -56,7 +56,7 @@ def export_meshlab(
         vcg_camera.setAttribute("LensDistortion", "0 0")
         vcg_camera.setAttribute("CameraType", "0")
         vcg_camera.setAttribute("BinaryData", "0")
-        vcg_camera.setAttribute("ViewportPx", f"{image.shape[0]} {image.shape[1]}")
+        vcg_camera.setAttribute("ViewportPx", f"{image.shape[1]} {image.shape[0]}")
         rotation = np.diag([1, -1, -1, 1]).dot(mtx)
         rotation[:3, 3] = 0
         vcg_camera.setAttribute("RotationMatrix", " ".join([str(v) for v in rotation.flatten()]))
-- 
2.43.0


From 1e5da77d329b3028422ebe1dfb9162d9f4ae7b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:28 +0000
Subject: [PATCH 20/30] fix: export the world-to-camera rotation to MeshLab
 instead of its inverse

---
 deodr/meshlab_io.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/deodr/meshlab_io.py b/deodr/meshlab_io.py
index c8b4470..887cff6 100644
--- a/deodr/meshlab_io.py
+++ b/deodr/meshlab_io.py
@@ -57,8 +57,9 @@ def export_meshlab(
         vcg_camera.setAttribute("CameraType", "0")
         vcg_camera.setAttribute("BinaryData", "0")
         vcg_camera.setAttribute("ViewportPx", f"{image.shape[1]} {image.shape[0]}")
-        rotation = np.diag([1, -1, -1, 1]).dot(mtx)
-        rotation[:3, 3] = 0
+        # MeshLab expects the rotation from the world to a camera that looks along -z with y up
+        rotation = np.diag([1, -1, -1, 1]).dot(mtx.T)
+        rotation[3, :3] = 0
         vcg_camera.setAttribute("RotationMatrix", " ".join([str(v) for v in rotation.flatten()]))
 
         ml_raster.appendChild(vcg_camera)
-- 
2.43.0


From f152f3c6f4ad23c6be5ab703109b336a0e65b7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:28 +0000
Subject: [PATCH 21/30] fix: write the images of a MeshLab project next to the
 project file that refers to them

---
 deodr/meshlab_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deodr/meshlab_io.py b/deodr/meshlab_io.py
index 887cff6..2049fd6 100644
--- a/deodr/meshlab_io.py
+++ b/deodr/meshlab_io.py
@@ -69,7 +69,7 @@ def export_meshlab(
         plane.setAttribute("semantic", "1")
         ml_raster.appendChild(plane)
 
-        imwrite(image_file, image.astype(np.uint8))
+        imwrite(os.path.join(os.path.dirname(filename), image_file), image.astype(np.uint8))
         ml_mesh.setAttribute("label", image_file)
         render_group.appendChild(ml_raster)
 
-- 
2.43.0


From 26cd7b3132f1131863e0cb8e0cd78a922dde4bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:13 +0000
Subject: [PATCH 22/30] fix: pass the clockwise flag and the number of vertices
 to the adjacencies of PyTorch meshes

---
 deodr/pytorch/triangulated_mesh_pytorch.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/deodr/pytorch/triangulated_mesh_pytorch.py b/deodr/pytorch/triangulated_mesh_pytorch.py
index a7fa043..8baedcf 100644
--- a/deodr/pytorch/triangulated_mesh_pytorch.py
+++ b/deodr/pytorch/triangulated_mesh_pytorch.py
@@ -22,8 +22,8 @@ class TriMeshAdjacenciesPytorch(TriMeshAdjacencies):
     Unlike the TriMesh class there are no vertices stored in this class.
     """
 
-    def __init__(self, faces: np.ndarray, clockwise: bool = False):
-        super().__init__(faces, clockwise)
+    def __init__(self, faces: np.ndarray, clockwise: bool = False, nb_vertices: Optional[int] = None):
+        super().__init__(faces, clockwise, nb_vertices=nb_vertices)
         self.faces_torch = torch.LongTensor(faces)
         i = self.faces_torch.flatten()
         j = torch.LongTensor(np.tile(np.arange(self.nb_faces)[:, None], [1, 3]).flatten())
@@ -76,7 +76,7 @@ class ColoredTriMeshPytorch(ColoredTriMesh):
         )
 
     def compute_adjacencies(self) -> None:
-        self._adjacencies = TriMeshAdjacenciesPytorch(self.faces)
+        self._adjacencies = TriMeshAdjacenciesPytorch(self.faces, self.clockwise, nb_vertices=self.nb_vertices)
 
     def set_vertices_colors(self, colors: torch.Tensor) -> None:
         self.vertices_colors = colors
-- 
2.43.0


From 5b767ab582c6408eb40c1fb756eff723e4a69aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:13 +0000
Subject: [PATCH 23/30] fix: cross product along the coordinates in PyTorch
 face normals, also for meshes of three faces

---
 deodr/pytorch/triangulated_mesh_pytorch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deodr/pytorch/triangulated_mesh_pytorch.py b/deodr/pytorch/triangulated_mesh_pytorch.py
index 8baedcf..a866339 100644
--- a/deodr/pytorch/triangulated_mesh_pytorch.py
+++ b/deodr/pytorch/triangulated_mesh_pytorch.py
@@ -37,7 +37,7 @@ class TriMeshAdjacenciesPytorch(TriMeshAdjacencies):
         triangles = vertices[self.faces_torch, :]
         u = triangles[::, 1] - triangles[::, 0]
         v = triangles[::, 2] - triangles[::, 0]
-        n = -torch.cross(u, v) if self.clockwise else torch.cross(u, v)
+        n = -torch.cross(u, v, dim=1) if self.clockwise else torch.cross(u, v, dim=1)
         l2 = (n**2).sum(dim=1)
         norm = l2.sqrt()
         return n / norm[:, None]
-- 
2.43.0


From 8be9518744d59646c2171ea8d2db593b1541ac90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:13 +0000
Subject: [PATCH 24/30] fix: evaluate the PyTorch rigidity energy of vertices
 that require a gradient

---
 deodr/pytorch/laplacian_rigid_energy_pytorch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deodr/pytorch/laplacian_rigid_energy_pytorch.py b/deodr/pytorch/laplacian_rigid_energy_pytorch.py
index 77795b6..86c5959 100644
--- a/deodr/pytorch/laplacian_rigid_energy_pytorch.py
+++ b/deodr/pytorch/laplacian_rigid_energy_pytorch.py
@@ -36,7 +36,7 @@ class LaplacianRigidEnergyPytorch:
     ) -> Tuple[torch.Tensor, torch.Tensor, torch.Tensor]:
         assert isinstance(vertices, torch.Tensor)
         if vertices.requires_grad:
-            diff = (vertices - self.numpy_imp.vertices_ref).flatten()
+            diff = (vertices - torch.as_tensor(self.numpy_imp.vertices_ref)).flatten()
             grad_vertices = self.numpy_imp.cregu * (self.cT_torch.matmul(diff[:, None])).reshape_as(vertices)
         else:
             diff = (vertices - torch.tensor(self.numpy_imp.vertices_ref)).flatten()
-- 
2.43.0


From bcea0cdbf0d23e182040f74eec35254ddf38a3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:13 +0000
Subject: [PATCH 25/30] fix: accept PyTorch scenes without directional light

---
 deodr/pytorch/differentiable_renderer_pytorch.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/deodr/pytorch/differentiable_renderer_pytorch.py b/deodr/pytorch/differentiable_renderer_pytorch.py
index 1ce09c2..c116e5a 100644
--- a/deodr/pytorch/differentiable_renderer_pytorch.py
+++ b/deodr/pytorch/differentiable_renderer_pytorch.py
@@ -87,14 +87,16 @@ class Scene3DPytorch(Scene3D):
     def __init__(self) -> None:
         super().__init__()
 
-    def set_light(self, light_directional: torch.Tensor, light_ambient: torch.Tensor) -> None:
-        if not (isinstance(light_directional, torch.Tensor)):
+    def set_light(self, light_directional: Optional[torch.Tensor], light_ambient: torch.Tensor) -> None:
+        if light_directional is not None and not isinstance(light_directional, torch.Tensor):
             light_directional = torch.tensor(light_directional)
         self.light_directional = light_directional
         self.light_ambient_pytorch = light_ambient
 
     def _compute_vertices_colors_with_illumination(self) -> torch.Tensor:
         assert self.mesh is not None
+        if self.light_directional is None:
+            return self.mesh.vertices_colors * self.light_ambient_pytorch
         vertices_luminosity = (
             torch.relu(-torch.sum(self.mesh.vertex_normals * self.light_directional, dim=1))
             + self.light_ambient_pytorch
-- 
2.43.0


From a33c0f290c0456a091feb6c868e53c579dba9328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:16 +0000
Subject: [PATCH 26/30] fix: render and back-propagate PyTorch scenes with
 their own sigma, several views and repeated back-propagation

---
 .../differentiable_renderer_pytorch.py        | 26 +++++++++++--------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/deodr/pytorch/differentiable_renderer_pytorch.py b/deodr/pytorch/differentiable_renderer_pytorch.py
index c116e5a..37501fe 100644
--- a/deodr/pytorch/differentiable_renderer_pytorch.py
+++ b/deodr/pytorch/differentiable_renderer_pytorch.py
@@ -48,11 +48,12 @@ class TorchDifferentiableRenderer2DFunc(torch.autograd.Function):
         nb_color_channels = colors.shape[1]
         image = np.empty((scene.scene_2d.height, scene.scene_2d.width, nb_color_channels))
         z_buffer = np.empty((scene.scene_2d.height, scene.scene_2d.width))
-        ctx.scene = scene
+        ctx.scene_2d = scene.scene_2d  # the scene may render other views before the backward pass
+        ctx.sigma = scene.sigma
         scene.scene_2d.ij = ij.detach().numpy()  # should automatically detached according to
         # https://pytorch.org/docs/master/notes/extending.html
         scene.colors = colors.detach().numpy()
-        differentiable_renderer_cython.renderSceneCpp(scene.scene_2d, 1, image, z_buffer)
+        differentiable_renderer_cython.renderSceneCpp(scene.scene_2d, scene.sigma, image, z_buffer)
         ctx.save_for_backward(ij, colors)
         ctx.image = image.copy()
         # making a copy to keep the antializaed image for visualization ,
@@ -64,16 +65,19 @@ class TorchDifferentiableRenderer2DFunc(torch.autograd.Function):
     def backward(ctx: Any, *grad_outputs: Any) -> Any:
         assert len(grad_outputs) == 1
         image_b = grad_outputs[0]
-        scene = ctx.scene
-        scene.scene_2d.uv_b = np.zeros(scene.scene_2d.uv.shape)
-        scene.scene_2d.ij_b = np.zeros(scene.scene_2d.ij.shape)
-        scene.scene_2d.shade_b = np.zeros(scene.scene_2d.shade.shape)
-        scene.scene_2d.colors_b = np.zeros(scene.scene_2d.colors.shape)
-        scene.scene_2d.texture_b = np.zeros(scene.scene_2d.texture.shape)
-        differentiable_renderer_cython.renderSceneBCpp(scene.scene_2d, 1, ctx.image, ctx.z_buffer, image_b.numpy())
+        scene_2d = ctx.scene_2d
+        scene_2d.uv_b = np.zeros(scene_2d.uv.shape)
+        scene_2d.ij_b = np.zeros(scene_2d.ij.shape)
+        scene_2d.shade_b = np.zeros(scene_2d.shade.shape)
+        scene_2d.colors_b = np.zeros(scene_2d.colors.shape)
+        scene_2d.texture_b = np.zeros(scene_2d.texture.shape)
+        # the renderer undoes the antialiasing in the image, and the graph may be back-propagated again
+        differentiable_renderer_cython.renderSceneBCpp(
+            scene_2d, ctx.sigma, ctx.image.copy(), ctx.z_buffer, image_b.contiguous().numpy()
+        )
         return (
-            torch.as_tensor(scene.scene_2d.ij_b),
-            torch.as_tensor(scene.scene_2d.colors_b),
+            torch.as_tensor(scene_2d.ij_b),
+            torch.as_tensor(scene_2d.colors_b),
             None,
         )
 
-- 
2.43.0


From 52490e496c8056a31bec17934aa3ae30405c4d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:32 +0000
Subject: [PATCH 27/30] fix: return the z buffer when rendering PyTorch scenes
 with return_z_buffer

---
 deodr/pytorch/differentiable_renderer_pytorch.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/deodr/pytorch/differentiable_renderer_pytorch.py b/deodr/pytorch/differentiable_renderer_pytorch.py
index 37501fe..24f9732 100644
--- a/deodr/pytorch/differentiable_renderer_pytorch.py
+++ b/deodr/pytorch/differentiable_renderer_pytorch.py
@@ -59,6 +59,7 @@ class TorchDifferentiableRenderer2DFunc(torch.autograd.Function):
         # making a copy to keep the antializaed image for visualization ,
         # could be optional
         ctx.z_buffer = z_buffer
+        scene.z_buffer = torch.as_tensor(z_buffer)
         return torch.as_tensor(image)
 
     @staticmethod
@@ -109,7 +110,5 @@ class Scene3DPytorch(Scene3D):
 
     def _render_2d(self) -> Tuple[torch.Tensor, torch.Tensor]:
         self.depths = self.scene_2d.depths.detach()
-        return (
-            TorchDifferentiableRender2D(self.scene_2d.ij, self.scene_2d.colors, self),
-            self.depths,
-        )
+        image = TorchDifferentiableRender2D(self.scene_2d.ij, self.scene_2d.colors, self)
+        return image, self.z_buffer
-- 
2.43.0


From 80b822e6c69eb8c7019557e704b77453c4108cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:40 +0000
Subject: [PATCH 28/30] fix: keep the lights and the color fixed in the PyTorch
 color fitter when asked to

---
 deodr/pytorch/mesh_fitter_pytorch.py | 30 +++++++++++++++-------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/deodr/pytorch/mesh_fitter_pytorch.py b/deodr/pytorch/mesh_fitter_pytorch.py
index badd532..5a32491 100644
--- a/deodr/pytorch/mesh_fitter_pytorch.py
+++ b/deodr/pytorch/mesh_fitter_pytorch.py
@@ -502,20 +502,22 @@ class MeshRGBFitterWithPose:
             self.speed_translation * inertia + (1 - inertia) * step_translation
         )
         self.transform_translation = self.transform_translation + self.speed_translation
-        # update directional light
-        step = -light_directional_with_grad.grad.numpy() * 0.0001
-        self.speed_light_directional = (1 - self.damping) * (
-            self.speed_light_directional * inertia + (1 - inertia) * step
-        )
-        self.light_directional = self.light_directional + self.speed_light_directional
-        # update ambient light
-        step = -light_ambient_with_grad.grad.numpy() * 0.0001
-        self.speed_light_ambient = (1 - self.damping) * (self.speed_light_ambient * inertia + (1 - inertia) * step)
-        self.light_ambient = self.light_ambient + self.speed_light_ambient
-        # update mesh color
-        step = -mesh_color_with_grad.grad.numpy() * 0.00001
-        self.speed_mesh_color = (1 - self.damping) * (self.speed_mesh_color * inertia + (1 - inertia) * step)
-        self.mesh_color = self.mesh_color + self.speed_mesh_color
+        if self.update_lights:
+            # update directional light
+            step = -light_directional_with_grad.grad.numpy() * 0.0001
+            self.speed_light_directional = (1 - self.damping) * (
+                self.speed_light_directional * inertia + (1 - inertia) * step
+            )
+            self.light_directional = self.light_directional + self.speed_light_directional
+            # update ambient light
+            step = -light_ambient_with_grad.grad.numpy() * 0.0001
+            self.speed_light_ambient = (1 - self.damping) * (self.speed_light_ambient * inertia + (1 - inertia) * step)
+            self.light_ambient = self.light_ambient + self.speed_light_ambient
+        if self.update_color:
+            # update mesh color
+            step = -mesh_color_with_grad.grad.numpy() * 0.00001
+            self.speed_mesh_color = (1 - self.damping) * (self.speed_mesh_color * inertia + (1 - inertia) * step)
+            self.mesh_color = self.mesh_color + self.speed_mesh_color
 
         self.iter += 1
         return energy, image.detach().numpy(), diff_image.detach().numpy()
-- 
2.43.0


From d11c1f513a5d730ed95eb49c97642f96d15222e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:58 +0000
Subject: [PATCH 29/30] fix: raise Python exceptions when the C++ renderer
 throws

---
 deodr/differentiable_renderer_cython.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deodr/differentiable_renderer_cython.pyx b/deodr/differentiable_renderer_cython.pyx
index f274249..d6b3d2c 100644
--- a/deodr/differentiable_renderer_cython.pyx
+++ b/deodr/differentiable_renderer_cython.pyx
@@ -41,8 +41,8 @@ cdef extern from "../C++/DifferentiableRenderer.h":
 		bool strict_edge
 		bool perspective_correct
 		bool integer_pixel_centers
-	void renderScene(Scene scene,double* image,double* z_buffer,double sigma,bool antialiase_error ,double* obs,double*  err_buffer)
-	void renderScene_B(Scene scene,double* image,double* z_buffer,double* image_b,double sigma,bool antialiase_error ,double* obs,double*  err_buffer, double* err_buffer_b)
+	void renderScene(Scene scene,double* image,double* z_buffer,double sigma,bool antialiase_error ,double* obs,double*  err_buffer) except +
+	void renderScene_B(Scene scene,double* image,double* z_buffer,double* image_b,double sigma,bool antialiase_error ,double* obs,double*  err_buffer, double* err_buffer_b) except +
 
 
 @cython.boundscheck(False)
-- 
2.43.0


From e71045b95bb8689ef3820b17e22861adf8177fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:58 +0000
Subject: [PATCH 30/30] fix: reject the scenes whose arrays do not match before
 rendering them

---
 deodr/differentiable_renderer.py         | 28 +++++++++++++++
 deodr/differentiable_renderer_cython.pyx | 44 +++++++++++++++++++++---
 2 files changed, 68 insertions(+), 4 deletions(-)

diff --git a/deodr/differentiable_renderer.py b/deodr/differentiable_renderer.py
index f978599..447c460 100644
--- a/deodr/differentiable_renderer.py
+++ b/deodr/differentiable_renderer.py
@@ -72,9 +72,15 @@ def renderScene(
         nb_vertices_uv = scene.uv.shape[0]
 
         assert scene.faces.dtype == np.uint32
+        assert scene.faces.ndim == 2
+        assert scene.faces.shape[1] == 3
+        assert scene.faces_uv.ndim == 2
+        assert scene.faces_uv.shape[1] == 3
         assert np.all(scene.faces < nb_vertices)
         assert np.all(scene.faces_uv < nb_vertices_uv)
+        assert np.all(scene.faces_uv >= 0)
 
+        assert scene.depths.flatten().shape[0] == nb_vertices
         assert scene.colors.ndim == 2
         assert scene.uv.ndim == 2
         assert scene.ij.ndim == 2
@@ -103,6 +109,7 @@ def renderScene(
             assert scene.background_color is None, "You need to provide either background_image or background_color"
         else:
             assert scene.background_color is not None, "You need to provide background_image or background_color"
+            assert scene.background_color.ndim == 1
             assert scene.background_color.shape[0] == nb_colors
 
         if scene.texture.size > 0:
@@ -110,9 +117,13 @@ def renderScene(
             assert scene.texture.shape[0] > 0
             assert scene.texture.shape[1] > 0
             assert scene.texture.shape[2] == nb_colors
+        else:
+            assert not np.any(scene.textured), "You need to provide a texture"
 
         assert z_buffer.shape[0] == height
         assert z_buffer.shape[1] == width
+        assert scene.height == height
+        assert scene.width == width
 
         if antialiase_error:
             assert err_buffer is not None, "You need to provide err_buffer"
@@ -154,15 +165,23 @@ def renderSceneB(
         assert nb_colors == scene.colors.shape[1]
         assert z_buffer.shape[0] == height
         assert z_buffer.shape[1] == width
+        assert scene.height == height
+        assert scene.width == width
         assert nb_triangles == scene.faces_uv.shape[0]
 
         nb_vertices = scene.depths.shape[0]
         nb_vertices_uv = scene.uv.shape[0]
 
         assert scene.faces.dtype == np.uint32
+        assert scene.faces.ndim == 2
+        assert scene.faces.shape[1] == 3
+        assert scene.faces_uv.ndim == 2
+        assert scene.faces_uv.shape[1] == 3
         assert np.all(scene.faces < nb_vertices)
         assert np.all(scene.faces_uv < nb_vertices_uv)
+        assert np.all(scene.faces_uv >= 0)
 
+        assert scene.depths.flatten().shape[0] == nb_vertices
         assert scene.colors.ndim == 2
         assert scene.uv.ndim == 2
         assert scene.ij.ndim == 2
@@ -191,6 +210,7 @@ def renderSceneB(
             assert scene.background_color is None, "You need to provide either background_image or background_color"
         else:
             assert scene.background_color is not None, "You need to provide background_image or background_color"
+            assert scene.background_color.ndim == 1
             assert scene.background_color.shape[0] == nb_colors
 
         assert scene.uv_b is not None
@@ -210,6 +230,7 @@ def renderSceneB(
         assert scene.ij_b.shape[0] == nb_vertices
         assert scene.ij_b.shape[1] == 2
         assert scene.shade_b.shape[0] == nb_vertices
+        assert scene.colors_b.ndim == 2
         assert scene.colors_b.shape[0] == nb_vertices
         assert scene.colors_b.shape[1] == nb_colors
 
@@ -223,18 +244,25 @@ def renderSceneB(
             assert scene.texture.shape[1] == scene.texture_b.shape[1]
             assert scene.texture.shape[2] == nb_colors
             assert scene.texture_b.shape[2] == nb_colors
+        else:
+            assert not np.any(scene.textured), "You need to provide a texture"
 
         if antialiase_error:
             assert err_buffer is not None
+            assert err_buffer_b is not None
             assert obs is not None
             assert err_buffer.shape[0] == height
             assert err_buffer.shape[1] == width
             assert obs.shape[0] == height
             assert obs.shape[1] == width
+            assert obs.shape[2] == nb_colors
+            assert err_buffer_b.shape[0] == height
+            assert err_buffer_b.shape[1] == width
         else:
             assert image_b is not None
             assert image_b.shape[0] == height
             assert image_b.shape[1] == width
+            assert image_b.shape[2] == nb_colors
 
     differentiable_renderer_cython.renderSceneBCpp(
         scene,
diff --git a/deodr/differentiable_renderer_cython.pyx b/deodr/differentiable_renderer_cython.pyx
index d6b3d2c..2d81481 100644
--- a/deodr/differentiable_renderer_cython.pyx
+++ b/deodr/differentiable_renderer_cython.pyx
@@ -61,6 +61,12 @@ def renderSceneCpp(scene,
 	if check_valid:
 		assert (not(image is None))
 		assert (not(z_buffer is None))
+		assert(scene.faces.ndim  ==  2)
+		assert(scene.faces_uv.ndim  ==  2)
+		assert(scene.depths.ndim  >=  1)
+		assert(scene.uv.ndim  ==  2)
+		assert(scene.colors.ndim  ==  2)
+		assert(scene.texture.ndim  >=  2)
 
 	height  =  image.shape[0]
 	width  =  image.shape[1]
@@ -73,11 +79,13 @@ def renderSceneCpp(scene,
 
 	if check_valid:	
 		assert(scene.faces.dtype  ==  np.uint32)
+		assert(scene.faces.shape[1]  ==  3)
+		assert(scene.faces_uv.shape[1]  ==  3)
 		assert(np.all(scene.faces < nb_vertices))
 		assert(np.all(scene.faces_uv < nb_vertices_uv))
+		assert(np.all(scene.faces_uv >= 0))
 				
-		assert(scene.colors.ndim  ==  2)
-		assert(scene.uv.ndim  ==  2)
+		assert(scene.depths.flatten().shape[0]  ==  nb_vertices)
 		assert(scene.ij.ndim  ==  2)
 		assert(scene.shade.ndim  ==  1)
 		assert(scene.edgeflags.ndim  ==  2)
@@ -102,6 +110,7 @@ def renderSceneCpp(scene,
 			assert scene.background_image.shape[1] == width
 			assert scene.background_image.shape[2] == nb_colors
 		else:
+			assert scene.background_color.ndim == 1
 			assert scene.background_color.shape[0] == nb_colors
 		
 		if scene.texture.size>0:
@@ -109,9 +118,13 @@ def renderSceneCpp(scene,
 			assert(scene.texture.shape[0]>0)
 			assert(scene.texture.shape[1]>0)
 			assert(scene.texture.shape[2]  ==  nb_colors)
+		else:
+			assert(not np.any(scene.textured))
 		
 		assert z_buffer.shape[0]  ==  height 
 		assert z_buffer.shape[1]  ==  width 
+		assert scene.height  ==  height
+		assert scene.width  ==  width
 
 	scene_c.nb_colors = nb_colors
 	cdef np.ndarray[np.uint32_t, mode = "c"] faces_c  =  np.ascontiguousarray(scene.faces.flatten(), dtype = np.uint32)
@@ -184,6 +197,8 @@ def renderSceneCpp(scene,
 
 	
 	if antialiase_error:
+		assert err_buffer is not None
+		assert obs is not None
 		assert err_buffer.shape[0]  ==  height 
 		assert err_buffer.shape[1]  ==  width
 		assert obs.shape[0]  ==  height 
@@ -219,6 +234,12 @@ def renderSceneBCpp(scene,
 	if check_valid:
 		assert (not(image is None))
 		assert (not(z_buffer is None))
+		assert(scene.faces.ndim  ==  2)
+		assert(scene.faces_uv.ndim  ==  2)
+		assert(scene.depths.ndim  >=  1)
+		assert(scene.uv.ndim  ==  2)
+		assert(scene.colors.ndim  ==  2)
+		assert(scene.texture.ndim  >=  2)
 		
 	height = image.shape[0]
 	width  = image.shape[1]
@@ -229,6 +250,8 @@ def renderSceneBCpp(scene,
 		assert(nb_colors  ==  scene.colors.shape[1])			
 		assert z_buffer.shape[0]  ==  height 
 		assert z_buffer.shape[1]  ==  width 	
+		assert scene.height  ==  height
+		assert scene.width  ==  width
 		assert(nb_triangles  ==  scene.faces_uv.shape[0])
 
 	nb_vertices  =  scene.depths.shape[0]
@@ -236,11 +259,13 @@ def renderSceneBCpp(scene,
 	
 	if check_valid:
 		assert(scene.faces.dtype == np.uint32)
+		assert(scene.faces.shape[1]  ==  3)
+		assert(scene.faces_uv.shape[1]  ==  3)
 		assert(np.all(scene.faces<nb_vertices))
 		assert(np.all(scene.faces_uv<nb_vertices_uv))
+		assert(np.all(scene.faces_uv >= 0))
 				
-		assert(scene.colors.ndim  ==  2)
-		assert(scene.uv.ndim  ==  2)
+		assert(scene.depths.flatten().shape[0]  ==  nb_vertices)
 		assert(scene.ij.ndim  ==  2)
 		assert(scene.shade.ndim  ==  1)
 		assert(scene.edgeflags.ndim  ==  2)
@@ -265,6 +290,7 @@ def renderSceneBCpp(scene,
 			assert scene.background_image.shape[1] == width
 			assert scene.background_image.shape[2] == nb_colors
 		else:
+			assert scene.background_color.ndim == 1
 			assert scene.background_color.shape[0] == nb_colors
 				
 		assert(scene.uv_b.ndim  ==  2)
@@ -278,6 +304,7 @@ def renderSceneBCpp(scene,
 		assert(scene.ij_b.shape[0]  ==  nb_vertices)
 		assert(scene.ij_b.shape[1]  ==  2)
 		assert(scene.shade_b.shape[0]  ==  nb_vertices)	
+		assert(scene.colors_b.ndim  ==  2)
 		assert(scene.colors_b.shape[0]  ==  nb_vertices)
 		assert(scene.colors_b.shape[1]  ==  nb_colors)
 
@@ -291,6 +318,8 @@ def renderSceneBCpp(scene,
 			assert(scene.texture.shape[1]  ==  scene.texture_b.shape[1])
 			assert(scene.texture.shape[2]  ==  nb_colors)	
 			assert(scene.texture_b.shape[2]  ==  nb_colors)
+		else:
+			assert(not np.any(scene.textured))
 			
 	scene_c.nb_colors = nb_colors
 	
@@ -378,10 +407,16 @@ def renderSceneBCpp(scene,
 	
 	if antialiase_error:
 		if check_valid:
+			assert err_buffer is not None
+			assert err_buffer_b is not None
+			assert obs is not None
 			assert err_buffer.shape[0]  ==  height 
 			assert err_buffer.shape[1]  ==  width 
 			assert obs.shape[0]  ==  height 
 			assert obs.shape[1]  ==  width 
+			assert obs.shape[2]  ==  nb_colors 
+			assert err_buffer_b.shape[0]  ==  height 
+			assert err_buffer_b.shape[1]  ==  width 
 	
 		err_buffer_ptr = <double*>err_buffer.data
 		err_buffer_b_ptr = <double*>err_buffer_b.data
@@ -398,6 +433,7 @@ def renderSceneBCpp(scene,
 			assert (not(image_b is None))
 			assert image_b.shape[0]  ==  height 
 			assert image_b.shape[1]  ==  width 
+			assert image_b.shape[2]  ==  nb_colors 
 		image_b_ptr  =  <double*> image_b.data
 		if image_b_ptr  ==  NULL:
 			raise BaseException('image_b_ptr is NULL')
-- 
2.43.0

