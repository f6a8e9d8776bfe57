import freshproc
freshproc.serve()
