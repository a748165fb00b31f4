SPECIFICATION Spec
CONSTANT Wide = {1, 2, 255, 256, 257, 4097, 65535}
INVARIANTS Uniform Even
