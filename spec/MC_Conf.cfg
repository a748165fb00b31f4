SPECIFICATION Spec
CONSTANTS
  MaxLines = 3
INVARIANTS AsLines FinalNewline Cut Both Override
