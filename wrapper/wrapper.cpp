// Entry points used by the checks. Includes the real renderer from /repo and only relies on its public
// surface: struct Scene (by field name), renderScene and renderScene_B.
// (the Cython translation unit reaches the header after Python.h, which includes these)
#include <limits.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "DifferentiableRenderer.h"

#define SCENE_ARGS                                                                                          \
	unsigned int *faces, unsigned int *faces_uv, double *depths, double *uv, double *ij, double *shade,      \
		double *colors, bool *edgeflags, bool *textured, bool *shaded, int nb_triangles, int nb_vertices,     \
		int clockwise, int backface_culling, int nb_uv, int height, int width, int nb_colors, double *texture, \
		int texture_height, int texture_width, double *background_image, double *background_color,            \
		double *uv_b, double *ij_b, double *shade_b, double *colors_b, double *texture_b, int strict_edge,     \
		int perspective_correct, int integer_pixel_centers

static inline void fill_scene(Scene &s, SCENE_ARGS)
{
	s.faces = faces; s.faces_uv = faces_uv; s.depths = depths; s.uv = uv; s.ij = ij; s.shade = shade;
	s.colors = colors; s.edgeflags = edgeflags; s.textured = textured; s.shaded = shaded;
	s.nb_triangles = nb_triangles; s.nb_vertices = nb_vertices; s.clockwise = clockwise != 0;
	s.backface_culling = backface_culling != 0; s.nb_uv = nb_uv; s.height = height; s.width = width;
	s.nb_colors = nb_colors; s.texture = texture; s.texture_height = texture_height;
	s.texture_width = texture_width; s.background_image = background_image;
	s.background_color = background_color; s.uv_b = uv_b; s.ij_b = ij_b; s.shade_b = shade_b;
	s.colors_b = colors_b; s.texture_b = texture_b; s.strict_edge = strict_edge != 0;
	s.perspective_correct = perspective_correct != 0; s.integer_pixel_centers = integer_pixel_centers != 0;
}
#define FILL                                                                                               \
	Scene s;                                                                                                \
	fill_scene(s, faces, faces_uv, depths, uv, ij, shade, colors, edgeflags, textured, shaded, nb_triangles, \
			   nb_vertices, clockwise, backface_culling, nb_uv, height, width, nb_colors, texture,            \
			   texture_height, texture_width, background_image, background_color, uv_b, ij_b, shade_b,        \
			   colors_b, texture_b, strict_edge, perspective_correct, integer_pixel_centers);

extern "C" int vf_render(SCENE_ARGS, double *image, double *z_buffer, double sigma, int antialiaseError, double *obs, double *err_buffer)
{
	FILL
#ifdef VF_NATIVE
	try
	{
#endif
		renderScene(s, image, z_buffer, sigma, antialiaseError != 0, obs, err_buffer);
#ifdef VF_NATIVE
	}
	catch (...)
	{
		return 1;
	}
#endif
	return 0;
}

extern "C" int vf_render_B(SCENE_ARGS, double *image, double *z_buffer, double *image_b, double sigma, int antialiaseError, double *obs, double *err_buffer, double *err_buffer_b)
{
	FILL
#ifdef VF_NATIVE
	try
	{
#endif
		renderScene_B(s, image, z_buffer, image_b, sigma, antialiaseError != 0, obs, err_buffer, err_buffer_b);
#ifdef VF_NATIVE
	}
	catch (...)
	{
		return 1;
	}
#endif
	return 0;
}
