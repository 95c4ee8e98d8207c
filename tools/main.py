import run
run.main()
