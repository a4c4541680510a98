long vf_clock(void) { return 0; }
