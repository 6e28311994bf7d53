package main

func newMountExec(s *scenario) executor { fail("todo"); return nil }
