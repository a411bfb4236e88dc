"""The few calls of mpi4py that QDD uses, over the installed libmpi (mpi4py itself is not installed here).

Like mpi4py, objects travel pickled."""
