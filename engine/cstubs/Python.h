typedef struct PyObject_ PyObject;
typedef struct PyDictObject_ PyDictObject;
typedef struct PyModuleDef_ PyModuleDef;
typedef long Py_ssize_t;
typedef int PyGILState_STATE;
typedef PyObject *(*PyCFunction)(PyObject *, PyObject *);
typedef struct { const char *name; PyCFunction f; int flags; const char *doc; } PyMethodDef;
struct PyModuleDef_ { int head; const char *name; const char *doc; long size; PyMethodDef *methods; };
#define PyMODINIT_FUNC PyObject *
#define PyModuleDef_HEAD_INIT 0
#define METH_VARARGS 1
#define PY_MAJOR_VERSION 3
#define NULL 0
#define Py_RETURN_NONE return py_none()
