import atexit
import ctypes
import pickle

_lib = ctypes.CDLL("libmpi.so.40", mode=ctypes.RTLD_GLOBAL)


def _sym(name):
    return ctypes.c_void_p(ctypes.addressof(ctypes.c_char.in_dll(_lib, name)))


_WORLD, _BYTE, _INT, _MIN = (_sym(x) for x in ("ompi_mpi_comm_world", "ompi_mpi_byte", "ompi_mpi_int", "ompi_mpi_op_min"))


def _ok(rc):
    if rc:
        raise RuntimeError("MPI error %d" % rc)


_flag = ctypes.c_int(0)
_ok(_lib.MPI_Initialized(ctypes.byref(_flag)))
if not _flag.value:
    _ok(_lib.MPI_Init_thread(None, None, 3, ctypes.byref(_flag)))


def Finalize():
    _ok(_lib.MPI_Finalized(ctypes.byref(_flag)))
    if not _flag.value:
        _ok(_lib.MPI_Finalize())


class _Comm:
    def _int(self, f):
        v = ctypes.c_int(0)
        _ok(f(_WORLD, ctypes.byref(v)))
        return v.value

    def Get_size(self):
        return self._int(_lib.MPI_Comm_size)

    def Get_rank(self):
        return self._int(_lib.MPI_Comm_rank)

    def bcast(self, obj, root=0):
        me = self.Get_rank() == root
        data = pickle.dumps(obj) if me else b""
        n = ctypes.c_int(len(data))
        _ok(_lib.MPI_Bcast(ctypes.byref(n), 1, _INT, root, _WORLD))
        buf = ctypes.create_string_buffer(data if me else b"\0" * n.value, n.value)
        _ok(_lib.MPI_Bcast(buf, n.value, _BYTE, root, _WORLD))
        return obj if me else pickle.loads(buf.raw)

    def all(self, flag):
        """Whether `flag` holds on every process (for the harness, not part of mpi4py)."""
        a, b = ctypes.c_int(int(bool(flag))), ctypes.c_int(0)
        _ok(_lib.MPI_Allreduce(ctypes.byref(a), ctypes.byref(b), 1, _INT, _MIN, _WORLD))
        return bool(b.value)


COMM_WORLD = _Comm()
