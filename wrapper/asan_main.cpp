// Runs renderScene (and renderScene_B) on a scene read from a file, for replays under the sanitizers. Every array is
// allocated on its own with its exact size; outputs start uninitialised and are read at the end.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "wrapper.cpp"
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define CHECK(p, n) __msan_check_mem_is_initialized(p, n)
#endif
#endif
#ifndef CHECK
#define CHECK(p, n)
#endif

static FILE *f;
static double num()
{
	char t[64];
	if (fscanf(f, "%63s", t) != 1)
		exit(99);
	return strtod(t, 0);
}
template <class T> static T *arr()
{
	long n = (long)num();
	if (n < 0)
		return 0;
	T *p = (T *)malloc(n * sizeof(T) + (n == 0));
	for (long i = 0; i < n; i++)
		p[i] = (T)num();
	return p;
}
static double *out(long n) { return (double *)malloc(n * sizeof(double) + (n == 0)); }

int main(int argc, char **argv)
{
	f = fopen(argv[1], "r");
	unsigned int *faces = arr<unsigned int>(), *faces_uv = arr<unsigned int>();
	double *depths = arr<double>(), *uv = arr<double>(), *ij = arr<double>(), *shade = arr<double>(), *colors = arr<double>();
	bool *edgeflags = arr<bool>(), *textured = arr<bool>(), *shaded = arr<bool>();
	int nb_triangles = num(), nb_vertices = num(), clockwise = num(), backface_culling = num(), nb_uv = num(), height = num(), width = num(), nb_colors = num();
	double *texture = arr<double>();
	int texture_height = num(), texture_width = num();
	double *background_image = arr<double>(), *background_color = arr<double>();
	int strict_edge = num(), perspective_correct = num(), integer_pixel_centers = num();
	double sigma = num();
	double *obs = arr<double>(), *image_b = arr<double>(), *err_buffer_b = arr<double>();
	int backward = num();
	fclose(f);
	long n = (long)height * width;
	double *image = out(n * nb_colors), *z = out(n), *err = obs ? out(n) : 0;
	double *uv_b = (double *)calloc(2 * nb_uv + 1, 8), *ij_b = (double *)calloc(2 * nb_vertices + 1, 8), *shade_b = (double *)calloc(nb_vertices + 1, 8);
	double *colors_b = (double *)calloc(nb_vertices * nb_colors + 1, 8), *texture_b = (double *)calloc(texture_height * texture_width * nb_colors + 1, 8);
	int rc = vf_render(faces, faces_uv, depths, uv, ij, shade, colors, edgeflags, textured, shaded, nb_triangles, nb_vertices, clockwise, backface_culling,
		nb_uv, height, width, nb_colors, texture, texture_height, texture_width, background_image, background_color, uv_b, ij_b, shade_b, colors_b, texture_b,
		strict_edge, perspective_correct, integer_pixel_centers, image, z, sigma, obs != 0, obs, err);
	if (rc)
		return 98;
	if (!obs)
		CHECK(image, n * nb_colors * 8);
	CHECK(z, n * 8);
	if (obs)
		CHECK(err, n * 8);
	if (backward)
	{
		rc = vf_render_B(faces, faces_uv, depths, uv, ij, shade, colors, edgeflags, textured, shaded, nb_triangles, nb_vertices, clockwise, backface_culling,
			nb_uv, height, width, nb_colors, texture, texture_height, texture_width, background_image, background_color, uv_b, ij_b, shade_b, colors_b, texture_b,
			strict_edge, perspective_correct, integer_pixel_centers, image, z, image_b, sigma, obs != 0, obs, err, err_buffer_b);
		if (rc)
			return 97;
		CHECK(uv_b, 16 * nb_uv);
		CHECK(ij_b, 16 * nb_vertices);
		CHECK(shade_b, 8 * nb_vertices);
		CHECK(colors_b, 8 * nb_vertices * nb_colors);
		CHECK(texture_b, 8 * texture_height * texture_width * nb_colors);
	}
	return 0;
}
