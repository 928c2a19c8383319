from vf import interp
interp.main()
