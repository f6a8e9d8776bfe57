import workerlib
workerlib.main()
