// stands in for the renderer when the compiled bridge is replayed: records what it is given (the Scene type is the real one)
#pragma once
#define renderScene vf_real_renderScene
#define renderScene_B vf_real_renderScene_B
#include VF_REAL_HEADER
#undef renderScene
#undef renderScene_B
#include <stdexcept>

typedef int (*vf_hook_t)(int, void *, double *, double *, double *, double, int, double *, double *, double *);
static vf_hook_t vf_hook = 0;

static void vf_call(int which, Scene &s, double *image, double *z, double *image_b, double sigma, bool aa, double *obs, double *err, double *err_b)
{
	if (vf_hook && vf_hook(which, (void *)&s, image, z, image_b, sigma, aa ? 1 : 0, obs, err, err_b))
		throw "an error reported by the renderer";
}
static inline void renderScene(Scene scene, double *image, double *z, double sigma, bool aa, double *obs, double *err)
{
	vf_call(0, scene, image, z, 0, sigma, aa, obs, err, 0);
}
static inline void renderScene_B(Scene scene, double *image, double *z, double *image_b, double sigma, bool aa, double *obs, double *err, double *err_b)
{
	vf_call(1, scene, image, z, image_b, sigma, aa, obs, err, err_b);
}
#define VF_EXPORT extern "C" __attribute__((visibility("default"), used)) inline
VF_EXPORT void vf_set_hook(vf_hook_t h) { vf_hook = h; }
#define VF_P(n) VF_EXPORT void *vf_p_##n(Scene *s) { return (void *)s->n; }
#define VF_I(n) VF_EXPORT long vf_i_##n(Scene *s) { return (long)s->n; }
VF_P(faces) VF_P(faces_uv) VF_P(depths) VF_P(uv) VF_P(ij) VF_P(shade) VF_P(colors) VF_P(edgeflags) VF_P(textured) VF_P(shaded) VF_P(texture)
VF_P(background_image) VF_P(background_color) VF_P(uv_b) VF_P(ij_b) VF_P(shade_b) VF_P(colors_b) VF_P(texture_b)
VF_I(nb_triangles) VF_I(nb_vertices) VF_I(nb_uv) VF_I(height) VF_I(width) VF_I(nb_colors) VF_I(texture_height) VF_I(texture_width)
VF_I(clockwise) VF_I(backface_culling) VF_I(strict_edge) VF_I(perspective_correct) VF_I(integer_pixel_centers)
