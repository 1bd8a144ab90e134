"""small triangulated meshes used by the mesh checks (counter-clockwise when seen from outside for the closed ones)"""
MESHES = {
    "triangle": (3, [[0, 1, 2]]),
    "pair": (4, [[0, 1, 2], [2, 1, 3]]),
    "fan3": (5, [[0, 1, 2], [0, 2, 3], [0, 3, 4]]),
    "ring3": (4, [[0, 1, 2], [0, 2, 3], [0, 3, 1]]),
    "tetra": (4, [[0, 2, 1], [0, 1, 3], [1, 2, 3], [2, 0, 3]]),
    "pyramid": (5, [[0, 1, 4], [1, 2, 4], [2, 3, 4], [3, 0, 4], [0, 3, 2], [0, 2, 1]]),
    "strip4": (6, [[0, 1, 2], [2, 1, 3], [2, 3, 4], [4, 3, 5]]),
    "octa": (6, [[0, 2, 4], [2, 1, 4], [1, 3, 4], [3, 0, 4], [2, 0, 5], [1, 2, 5], [3, 1, 5], [0, 3, 5]]),
    "unused": (5, [[1, 2, 4], [4, 2, 3]]),
}


def rotated(faces, k=1):
    """same faces, each starting at another vertex"""
    return [[f[(i + (k * (n + 1)) % 3) % 3] for i in range(3)] for n, f in enumerate(faces)]


def flipped(faces):
    return [[f[0], f[2], f[1]] for f in faces]


def det3(a, b, c):
    return (a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0]))


def volume6(faces, v):
    s = 0
    for f in faces:
        s = s + det3(v[f[0]], v[f[1]], v[f[2]])
    return s


def cross3(u, v):
    return [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]


def face_cross(f, v):
    a = [v[f[1]][k] - v[f[0]][k] for k in range(3)]
    b = [v[f[2]][k] - v[f[0]][k] for k in range(3)]
    return cross3(a, b)


def dot(a, b):
    s = 0
    for p, q in zip(a, b):
        s = s + p * q
    return s
