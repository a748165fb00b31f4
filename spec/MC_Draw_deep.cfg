SPECIFICATION Spec
CONSTANT Wide = {1, 2, 3, 100, 255, 256, 257, 511, 512, 513, 4095, 4096, 4097, 32767, 32768, 32769, 50000, 65534, 65535}
INVARIANTS Uniform Even
