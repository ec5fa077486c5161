typedef struct PyArrayObject_ PyArrayObject;
typedef long npy_intp;
#define import_array() 
