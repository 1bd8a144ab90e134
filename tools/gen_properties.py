#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the text stays reviewable)."""
import json, pathlib
H = "C++/DifferentiableRenderer.h"
R = "deodr/differentiable_renderer.py"
M = "deodr/triangulated_mesh.py"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=hook))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)

I = ["inputs"]; IC = ["inputs", "configurations"]; IH = ["inputs", "histories"]

prop("C01", "A pixel is painted exactly when its centre lies in a front-facing triangle",
 "Rendering a 2D scene paints a pixel with a triangle if and only if that pixel's centre (integer coordinates, or half-integer ones when integer_pixel_centers is False) lies inside the triangle; centres strictly inside are always painted, centres strictly outside never, wherever the vertices are (on, off or far off the screen). With strict_edge=False every centre on the boundary is painted too; with strict_edge=True a centre on the boundary of a single triangle may or may not be. All other pixels hold the background exactly.",
 IC, "all triangle vertex positions, image sizes, both orientations, both strict_edge values and both pixel-centre conventions",
 "tests render three fixed meshes; coverage is decided by floor/ceil/clamp case splits that a handful of generic triangles never reaches (vertices on pixel rows, horizontal edges, off-screen parts)",
 [H], [("scan-line span computation and rounding", "get_triangle_stencil_equations, get_xrange, floor_div, ceil_div")], ["image and z buffer returned by renderScene / Scene2D.render"])

prop("C02", "Adjacent triangles tile the plane: no cracks and no double painting",
 "With strict edges, when triangles share an edge or a vertex and together cover a region without overlapping, every pixel centre in the interior of the region (also one on a shared edge or vertex) is painted by exactly one of them when each is rendered alone. With non-strict edges a centre on a shared edge (its end points excluded) is painted by both triangles next to it.",
 IC, "all positions of the shared and the opposite vertices, both vertex orders of the shared edge",
 "cracks appear only when a shared edge passes exactly through pixel centres or when the two triangles round the same edge differently",
 [H], [("half-open spans with shared rounding", "get_triangle_stencil_equations, get_xrange")], ["which triangle's colour a pixel shows when each is rendered alone and both together"])

prop("C03", "The nearest surface wins at every pixel, whatever the drawing order",
 "After rendering without edge antialiasing, every pixel shows the triangle whose interpolated depth at that pixel is smallest among the drawn triangles covering it, and the z buffer holds that depth (plus infinity where nothing is drawn). The result does not depend on the order of the faces unless depths tie exactly.",
 IC, "all vertex depths and positions of overlapping triangles, all face orders",
 "the tests render one arrangement per scene and only compare final pixels",
 [H], [("z buffer test", "render_part_interpolated, render_part_textured_gouraud, renderScene")], ["image, z buffer"])

prop("C04", "Back faces and faces with a vertex behind the camera are never drawn",
 "With backface culling on, a triangle is drawn only if its projected winding is the front-facing one for the scene's clockwise flag and none of its vertices has negative depth; its silhouette edges are not drawn either and it receives no gradient. With culling off both windings are drawn.",
 IC, "all vertex positions and depths, both clockwise flags",
 "tests use closed meshes in front of the camera, where culling mistakes are hidden by the z buffer",
 [H], [("signed area and depth test", "signedArea, renderScene, renderScene_B")], ["image, z buffer, gradient arrays"])

prop("C05", "Colours and depth are interpolated exactly between the vertices",
 "At each painted pixel of an untextured triangle the colour and the depth equal the barycentric combination of the three vertices' values at the pixel centre; with perspective_correct the combination is the perspective-correct one (1/depth linear in the image, colour/depth linear in the image). At a vertex that falls on a pixel centre the vertex value itself is returned.",
 IC, "all vertex positions, depths, colours and numbers of channels",
 "tests compare final images against stored ones with tolerance for a few poses",
 [H], [("attribute planes", "rasterize_triangle_interpolated, inv_matrix_3x3, mul_vect_matrix3x3, render_part_interpolated")], ["image, z buffer"])

prop("C06", "Textured pixels are bilinear texture samples times the interpolated shade",
 "A pixel of a textured and shaded triangle equals the interpolated shade times the bilinear sample of the texture at the interpolated texture coordinate (texel centres at integer coordinates, first coordinate along the texture width), sampling being clamped to the border texels outside the texture. The same holds with perspective-correct interpolation.",
 IC, "all texture coordinates (inside and outside the texture), texel values, shades, texture shapes including non-square ones",
 "tests use one texture and coordinates inside it",
 [H], [("bilinear sampling", "bilinear_sample, render_part_textured_gouraud, rasterize_triangle_textured_gouraud")], ["image"])

prop("C07", "Silhouette antialiasing blends exactly a sigma-wide band outside flagged edges",
 "With sigma>0, along every flagged edge of each front-facing triangle, and nowhere else, a pixel at signed distance d (0<d<sigma) outside the edge whose foot point lies on the edge and where the edge is nearer than what is displayed becomes t*previous+(1-t)*edge value with t=d/sigma, edge colour and depth being interpolated linearly along the edge. Edges are composited from the farthest triangle to the nearest, the z buffer is not changed, and edges that are not flagged change nothing.",
 IC, "all edge positions, directions, colours, depths, sigma, flags, both clockwise flags",
 "the antialiasing tests use a fixed set of random triangles and compare one stored hash",
 [H], [("edge overdraw", "get_edge_stencil_equations, get_edge_xrange_from_ineq, rasterize_edge_interpolated, rasterize_edge_textured_gouraud, renderScene")], ["image after renderScene with sigma>0 versus sigma=0"])

prop("C08", "The antialiased error buffer is the blended squared colour difference",
 "With antialiase_error the image is rendered without edge blending, and the error buffer holds at each pixel the sum over channels of the squared difference to the observed image, blended along each flagged edge with the same band and the same weights as the image would be: t*previous+(1-t)*squared difference between the edge value and the observation.",
 IC, "all observed images, scenes, edges",
 "tests check only the total loss of one scene",
 [H], [("error rendering", "rasterize_edge_interpolated_error, rasterize_edge_textured_gouraud_error, renderScene")], ["err_buffer, image of Scene2D.render_error"])

prop("C09", "Image gradients inside triangles are the exact derivatives of the rendering",
 "Without edge antialiasing, back-propagating any image gradient through the 2D renderer yields for vertex positions, vertex colours, shade, texture coordinates and texture texels exactly the derivative of the sum of gradient times image, wherever the set of visible pixels and the sampled texel cells do not change. Contributions of several pixels, triangles and channels add up.",
 IC, "all scenes and all image gradients",
 "the tests compare optimisation losses of short runs; they do not compare any gradient with the derivative, and no test back-propagates through a texture",
 [H], [("hand-written adjoints", "rasterize_triangle_interpolated_B, render_part_interpolated_B, rasterize_triangle_textured_gouraud_B, render_part_textured_gouraud_B, bilinear_sample_B, inv_matrix_3x3_B")], ["ij_b, colors_b, uv_b, shade_b, texture_b"])

prop("C10", "Image gradients through antialiased silhouette edges are exact",
 "With sigma>0, back-propagating any image gradient yields exactly the derivative of the antialiased image with respect to vertex positions, colours, shade, texture coordinates and texels, including the motion of the blending band across the pixels it covers. Gradients of overlapping bands are undone in reverse compositing order.",
 IC, "all scenes with flagged edges, all image gradients, all sigma",
 "only the final loss after a few optimisation steps is tested",
 [H], [("edge adjoints", "rasterize_edge_interpolated_B, rasterize_edge_textured_gouraud_B, get_edge_stencil_equations_B, renderScene_B")], ["ij_b, colors_b, uv_b, shade_b, texture_b"])

prop("C11", "Gradients of the antialiased error buffer are exact",
 "With antialiase_error, back-propagating any gradient of the error buffer yields exactly the derivative of the error buffer with respect to vertex positions, colours, shade, texture coordinates and texels.",
 IC, "all scenes, observations and error gradients",
 "tests compare a loss curve of a single scene, which was recorded from the code itself",
 [H], [("error adjoints", "rasterize_edge_interpolated_error_B, rasterize_edge_textured_gouraud_error_B, renderScene_B")], ["ij_b, colors_b, uv_b, shade_b, texture_b after Scene2D.render_error_backward"])

prop("C12", "Back-propagation accumulates and leaves the scene untouched",
 "Back-propagation adds its contribution to whatever the gradient arrays already hold, is linear in the incoming gradient, and changes none of the scene's inputs nor the z buffer; rendering twice gives the same image. Scenes that back-propagation does not support (culling off, perspective-correct) are rejected instead of returning a wrong gradient.",
 ["inputs", "histories"], "all prior contents of the gradient arrays, all incoming gradients",
 "tests always start from zero gradients and use one backward per forward",
 [H, R], [("gradient buffers", "renderScene_B, Scene2D.render_backward, Scene2D.clear_gradients")], ["gradient arrays, scene arrays, z buffer"])

prop("C13", "Rendering and back-propagation never access memory outside their arrays",
 "For every scene that passes validation, whatever finite, huge, infinite or NaN coordinates, depths, texture coordinates, colours and sigma it contains, forward and backward rendering terminate and never read or write outside the image, z buffer, texture, vertex, gradient and internal arrays, and every pixel of the outputs is written.",
 IC, "all doubles in all inputs, all sizes",
 "tests use well-behaved coordinates; an out-of-range index needs NaN, huge values, tiny textures or off-screen geometry",
 [H], [("clamping before indexing", "get_xrange, get_edge_xrange_from_ineq, get_edge_stencil_equations, bilinear_sample, bilinear_sample_B")], ["absence of out-of-bounds access (address sanitizer on replay)"])

prop("C14", "Invalid scenes are rejected before anything is drawn",
 "A scene whose faces or texture faces refer to missing vertices, whose arrays disagree in shape with the vertex, face, channel or image counts, or that has neither or both of background image and background colour, is rejected with an exception by forward and backward rendering; valid scenes are accepted.",
 IC, "all shapes and index values",
 "tests only pass valid scenes",
 [H, R, "deodr/differentiable_renderer_cython.pyx"], [("validation", "renderScene, renderSceneB, checkSceneValid")], ["exception raised by renderScene / renderSceneB"])

prop("C15", "Camera projection follows the OpenCV pinhole and distortion model",
 "Projecting points gives image coordinates K*distort(x/z, y/z) of the point expressed in the camera frame, with OpenCV's (k1,k2,p1,p2,k3) radial and tangential model (identity when there is no distortion), and depths equal to the camera-frame z; each point is projected independently of the others.",
 I, "all points, rotations, translations, intrinsics with skew, distortions",
 "tests use one camera without distortion per image",
 [R], [("projection", "Camera.project_points, Camera.world_to_camera, Camera.left_mul_intrinsic")], ["returned image points and depths"])

prop("C16", "The projection adjoint is the exact derivative of the projection",
 "Back-propagating gradients of projected points and of depths returns exactly the derivative with respect to the 3D points, for any camera rotation, intrinsic matrix and distortion.",
 I, "all points, cameras, incoming gradients",
 "tests use diagonal rotations, for which transposition errors cancel",
 [R], [("projection adjoint", "Camera.project_points_backward")], ["returned point gradients"])

prop("C17", "Camera frames are consistent and default cameras see the whole mesh",
 "The camera centre projects to the camera-frame origin, the camera-to-world matrix inverts the extrinsic transform, a PerspectiveCamera has its centre where requested, its principal point at the image centre and the requested horizontal field of view; a default camera places every vertex in front of it and inside the image.",
 IC, "all rotations, centres, sizes, fields of view, vertex sets",
 "tests only use rotations equal to their own transpose and compare images",
 [R], [("camera construction", "Camera.get_center, Camera.camera_to_world_mtx_4x4, PerspectiveCamera, default_camera")], ["extrinsic, intrinsic, projections"])

prop("C18", "Quaternion rotation, normalisation and cross product have exact adjoints",
 "Rotating by a unit quaternion preserves dot products and orientation and composes like rotations, normalising gives unit vectors along the same direction, and the backward functions of quaternion rotation, normalisation and cross product return exactly the derivatives for every input (quaternions need not be unit).",
 I, "all quaternions, vectors, incoming gradients, axes",
 "no test differentiates these functions",
 ["deodr/tools.py"], [("geometry tools", "qrot, qrot_backward, normalize, normalize_backward, cross_backward")], ["returned arrays"])

prop("C19", "Mesh normals are unit, outward, and their adjoint is exact",
 "Face normals are unit, orthogonal to the face and point to the side from which the face is front-facing for the mesh's clockwise flag; a vertex normal is the normalised sum of the normals of the faces around it; back-propagating vertex-normal gradients adds exactly their derivative with respect to the vertices.",
 IC, "all vertex positions of a mesh, both clockwise flags, all incoming gradients, any vertex valence",
 "tests only look at final fitting losses",
 [M], [("normals", "TriMeshAdjacencies.compute_face_normals, compute_vertex_normals and their backward functions")], ["face_normals, vertex_normals, _vertices_b"])

prop("C20", "An edge is a silhouette edge exactly when one adjacent face is visible",
 "For every projected manifold mesh the silhouette flag of each face's edge k (between its vertices k and k+1 modulo 3) is set if and only if exactly one face containing that edge is front-facing, under the same front-facing test as the rasteriser's culling; boundary edges of visible faces are silhouettes, and both faces sharing an edge get the same flag.",
 IC, "all projected vertex positions, all small manifold meshes with and without boundary, both clockwise flags",
 "tests use closed meshes from a few views and compare images only",
 [M, H], [("silhouette", "TriMeshAdjacencies.edge_on_silhouette, signedArea")], ["flags returned by edge_on_silhouette and faces actually drawn"])

prop("C21", "Mesh topology is derived correctly from the face list",
 "For any face list: each undirected edge has one identifier shared by the faces containing it, the adjacency relation links exactly the vertices joined by an edge, the mesh is manifold exactly when no edge is used by more than two faces or twice in the same direction, closed exactly when moreover every edge is used twice, boundary edges are those of one face, and a closed mesh is rejected exactly when its signed volume for the clockwise flag is negative.",
 ["inputs", "programs"], "all face lists up to the bound, all vertex positions",
 "tests load two meshes",
 [M], [("adjacency", "TriMeshAdjacencies.__init__, id_edge, boundary_edges, TriMesh.compute_volume, check_orientation")], ["edges, faces_edges, adjacency_vertices, is_manifold, is_closed, exceptions"])

prop("C22", "The rigidity energy is a non-negative quadratic with its exact gradient",
 "The laplacian rigidity energy equals half the regularisation weight times the squared norm of the uniform laplacian of the displacement from the reference, is zero at the reference and under global translation, its gradient is the exact derivative and its Hessian the returned one. A mesh with several connected components is rejected.",
 IC, "all vertex positions, references, weights, small meshes",
 "tests run fitting loops only",
 ["deodr/laplacian_rigid_energy.py", M], [("laplacian energy", "LaplacianRigidEnergy, TriMeshAdjacencies.laplacian")], ["energy, gradient, approx_hessian"])

prop("C23", "Vertex lighting is Lambertian and its adjoint is exact",
 "Vertex luminosity is ambient plus max(0, minus the dot product of the vertex normal and the directional light), just ambient when there is no directional light, and the vertex colour is albedo times luminosity; back-propagation returns the exact derivative for albedo, light direction, ambient light and normals.",
 IC, "all normals, lights, albedos, incoming gradients",
 "tests only use fitting losses",
 [R], [("lighting", "Scene3D.compute_vertices_luminosity, _compute_vertices_colors_with_illumination and their backward functions")], ["colours, light_directional_b, light_ambient_b, vertices_colors_b"])

prop("C24", "Rendering a 3D scene is projection, shading and 2D rendering of its mesh",
 "Rendering a 3D scene yields the image of the 2D scene whose vertices are the projected mesh vertices with their camera depths, lit vertex colours (or lit texture), silhouette edge flags when sigma>0, the mesh's winding, the scene's background, pixel-centre and perspective flags and the camera's size; the same holds for depth rendering, whose colour is the camera depth times the depth scale.",
 IC, "all meshes, cameras, lights, flags",
 "tests fix all flags and compare stored images",
 [R], [("3D pipeline", "Scene3D.render, Scene3D.render_depth, Scene3D._render_2d")], ["2D scene handed to the rasteriser, returned images"])

prop("C25", "3D scene gradients are the exact derivatives of the rendered image",
 "After rendering a 3D scene in colour or depth, back-propagating an image gradient gives exactly the derivative of the image with respect to mesh vertices (through projection, normals and silhouettes), vertex colours, light direction and ambient light, for any camera.",
 IC, "all vertices, colours, lights, cameras, image gradients (visibility held fixed)",
 "tests compare losses after optimisation with axis-aligned cameras; a slightly wrong gradient still decreases the loss",
 [R, M, H], [("3D adjoint", "Scene3D.render_backward, Scene3D.render_depth_backward")], ["mesh._vertices_b, mesh.vertices_colors_b, light_directional_b, light_ambient_b"])

prop("C26", "Deferred rendering returns the per-pixel attributes of the visible surface",
 "Deferred rendering without antialiasing returns, at each pixel covered by the mesh, the depth times the scale, face index, barycentric coordinates, normal, luminosity, colour or uv and position interpolated on the nearest face, covering the same pixels as the colour rendering of the same mesh; only the requested channels are returned.",
 IC, "all meshes, cameras, channel selections, both windings",
 "one example image is rendered in tests",
 [R], [("deferred channels", "Scene3D.render_deferred")], ["returned dictionary"])

prop("C27", "A fitter step follows the exact energy gradient with clamped steps",
 "One step of the depth and colour fitters returns the energy (squared image difference plus rigidity) of the current parameters, and moves the parameters by the inertia/damping update of a step opposite to the exact energy gradient, each component of the vertex, rotation and translation steps clamped to its maximum; the quaternion stays unit; light and colour move the same way unless their update is disabled.",
 IH, "all parameters, speeds and image gradients in one step",
 "tests run a fixed number of steps from one start",
 ["deodr/mesh_fitter.py"], [("fitter steps", "MeshDepthFitter.step, MeshRGBFitterWithPose.step")], ["energy returned, parameters and speeds after a step"])

prop("C28", "Loop subdivision keeps topology, orientation and the affine position of the mesh",
 "Subdividing a closed mesh n times multiplies the number of faces by 4 each time, keeps it a closed manifold with the same orientation and clockwise flag, gives new vertex positions and colours that are affine combinations of the old ones with weights summing to one (non-negative), so that translating the input translates the output and constants are preserved.",
 IC, "all vertex positions and colours, small closed meshes",
 "no test covers subdivision",
 [M], [("subdivision", "loop_subdivision")], ["subdivided mesh"])

prop("C29", "OBJ files round-trip",
 "Reading an OBJ file returns exactly the vertices and zero-based triangle indices it declares (v and f records, with or without texture/normal indices, positive or relative indices, other records ignored), and reading back a saved mesh returns the same faces and the vertices to the printed precision.",
 ["inputs", "programs"], "all index values and vertex counts, mixes of records",
 "no test reads unusual OBJ records",
 ["deodr/obj.py"], [("OBJ parser and writer", "read_obj, save_obj")], ["returned arrays, file text"])

prop("C30", "The OpenGL projection agrees with the camera model pixel for pixel",
 "For every point in front of the camera, the OpenGL vertex transform built from a camera (projection matrix and distortion shader) sends the point to the viewport position whose pixel is the one the camera projects to, in both pixel-centre conventions, and its depth between znear and zfar maps into the clip range in increasing order; every vertex also carries its own texture coordinate and the luminosity of the camera-independent Lambertian lighting, so the OpenGL image shows the same scene as the NumPy renderer.",
 IC, "all points, camera intrinsics, distortions, sizes",
 "one rendering is compared with tolerance",
 ["deodr/opengl/moderngl.py", "deodr/opengl/shaders.py", R], [("projection matrix and shader", "opencv_to_opengl_perspective, vertex_shader_source")], ["matrix, shader output position, varyings"])

prop("C31", "The PyTorch backend computes the same values as the NumPy backend",
 "The PyTorch versions of camera projection, face and vertex normals, silhouettes, quaternion rotation, rigidity energy, vertex lighting, colour and depth rendering of scenes and fitter steps return the same values as the NumPy versions for every input and configuration; autograd gives their exact gradients, also over several renderings or when repeated; its 2D renderer passes the scene's settings, images and gradients through unchanged.",
 IC, "all inputs",
 "tests compare losses of one fitting run",
 ["deodr/pytorch/differentiable_renderer_pytorch.py", "deodr/pytorch/triangulated_mesh_pytorch.py", "deodr/pytorch/laplacian_rigid_energy_pytorch.py", "deodr/pytorch/mesh_fitter_pytorch.py"],
 [("torch backend", "CameraPytorch, TriMeshAdjacenciesPytorch, LaplacianRigidEnergyPytorch, Scene3DPytorch, TorchDifferentiableRenderer2DFunc")], ["returned tensors"])

prop("C32", "Compare-and-backward returns the masked loss and its exact gradient",
 "Rendering, comparing with an observation under an optional mask and back-propagating in one call returns the sum of masked squared differences (of the image, or of the antialiased error buffer) together with its exact gradient in the scene's gradient arrays, clearing or accumulating them as requested; with copies requested the image and error buffers it returns stay as rendered, so that back-propagation can be repeated.",
 IH, "all observations, masks, flags, sequences of calls",
 "tests use no mask and clear gradients each time",
 [R], [("compare and backward", "Scene2D.render_compare_and_backward, render_error, render_error_backward, render_backward")], ["returned error and gradients"])

prop("C33", "The Python-to-C++ bridge hands every scene field over unchanged",
 "The compiled bridge gives the C++ renderer exactly the scene's arrays (values, order, element types, sizes, flags, background choice) and returns the accumulated gradients into the scene in their original shapes.",
 IC, "all array contents, memory layouts and flags",
 "tests use contiguous float64 arrays of one shape",
 ["deodr/differentiable_renderer_cython.pyx"], [("marshalling", "renderSceneCpp, renderSceneBCpp")], ["Scene structure received by the C++ entry points"])

prop("C34", "The MeshLab export describes the same cameras and mesh",
 "Exporting a MeshLab project writes for each camera the rotation, translation, focal length, principal point and viewport that reproduce the camera's projection under MeshLab's conventions, and the mesh file next to it.",
 IC, "all cameras and image sizes",
 "the example only checks that a file is written",
 ["deodr/meshlab_io.py"], [("export", "export_meshlab")], ["written project file"])

prop("C35", "The TensorFlow backend computes the same values as the NumPy backend",
 "The TensorFlow versions of camera, mesh, energy and fitters return the same values as the NumPy versions for every input.",
 I, "all inputs", "TensorFlow is not installed and the module refuses to import",
 ["deodr/tensorflow/__init__.py"], [("tensorflow backend", "deodr.tensorflow")], ["returned tensors"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P), "properties")
