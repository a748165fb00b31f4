------------------------------ MODULE CliData -------------------------------
(* Texts the command line knows: options and built-in presets.                *)
Options == <<
  [long |-> <<97, 109, 111, 117, 110, 116>>, c |-> 97, arg |-> TRUE],
  [long |-> <<104, 101, 108, 112>>, c |-> 104, arg |-> FALSE],
  [long |-> <<112, 114, 101, 115, 101, 116>>, c |-> 112, arg |-> TRUE],
  [long |-> <<100, 101, 112, 116, 104>>, c |-> 68, arg |-> TRUE],
  [long |-> <<118, 101, 114, 115, 105, 111, 110>>, c |-> 118, arg |-> FALSE],
  [long |-> <<110, 117, 108, 108>>, c |-> 122, arg |-> FALSE],
  [long |-> <<101, 110, 116, 114, 111, 112, 121>>, c |-> 101, arg |-> FALSE],
  [long |-> <<119, 111, 114, 100, 108, 105, 115, 116>>, c |-> 119, arg |-> TRUE],
  [long |-> <<114, 97, 110, 100, 111, 109>>, c |-> 114, arg |-> TRUE],
  [long |-> <<108, 105, 115, 116>>, c |-> 108, arg |-> FALSE],
  [long |-> <<100, 101, 102, 105, 110, 101, 45, 112, 114, 101, 115, 101, 116>>, c |-> 80, arg |-> TRUE],
  [long |-> <<106, 115, 111, 110>>, c |-> 106, arg |-> FALSE],
  [long |-> <<109, 97, 114, 107, 111, 118, 45, 108, 101, 110, 103, 116, 104>>, c |-> 77, arg |-> TRUE],
  [long |-> <<109, 97, 115, 116, 101, 114>>, c |-> 109, arg |-> TRUE],
  [long |-> <<100, 111, 109, 97, 105, 110>>, c |-> 100, arg |-> TRUE],
  [long |-> <<116, 111, 107, 101, 110>>, c |-> 116, arg |-> TRUE] >>
\* name and pattern
Builtin == <<
  <<<<97, 112, 112, 108, 101, 49>>,
    <<40, 91, 97, 45, 122, 65, 45, 90, 48, 45, 57, 93, 123, 51, 125, 45, 41, 123, 51, 125, 91, 97, 45, 122, 65, 45, 90, 48, 45, 57, 93, 123, 51, 125>>>>,
  <<<<97, 112, 112, 108, 101, 50>>,
    <<40, 91, 97, 45, 122, 65, 45, 90, 48, 45, 57, 93, 123, 54, 125, 45, 41, 123, 50, 125, 91, 97, 45, 122, 65, 45, 90, 48, 45, 57, 93, 123, 54, 125>>>>,
  <<<<117, 117, 105, 100>>,
    <<91, 48, 45, 57, 97, 45, 102, 93, 123, 56, 125, 45, 91, 48, 45, 57, 97, 45, 102, 93, 123, 52, 125, 45, 52, 91, 48, 45, 57, 97, 45, 102, 93, 123, 51, 125, 45, 91, 56, 57, 97, 98, 93, 91, 48, 45, 57, 97, 45, 102, 93, 123, 51, 125, 45, 91, 48, 45, 57, 97, 45, 102, 93, 123, 49, 50, 125>>>>,
  <<<<101, 100, 103, 101>>,
    <<91, 65, 45, 90, 97, 45, 102, 48, 45, 57, 58, 95, 92, 45, 93, 123, 49, 53, 125>>>>,
  <<<<102, 105, 114, 101, 102, 111, 120>>,
    <<91, 97, 45, 122, 65, 45, 90, 48, 45, 57, 93, 123, 49, 53, 125>>>>,
  <<<<112, 114, 111, 113, 117, 105, 110, 116, 49, 54>>,
    <<40, 91, 98, 100, 102, 103, 104, 106, 107, 108, 109, 110, 112, 114, 115, 116, 118, 122, 93, 91, 97, 105, 111, 117, 93, 41, 123, 50, 125, 91, 98, 100, 102, 103, 104, 106, 107, 108, 109, 110, 112, 114, 115, 116, 118, 122, 93, 40, 45, 40, 91, 98, 100, 102, 103, 104, 106, 107, 108, 109, 110, 112, 114, 115, 116, 118, 122, 93, 91, 97, 105, 111, 117, 93, 41, 123, 50, 125, 91, 98, 100, 102, 103, 104, 106, 107, 108, 109, 110, 112, 114, 115, 116, 118, 122, 93, 41, 123, 48, 125>>>>,
  <<<<112, 114, 111, 113, 117, 105, 110, 116, 51, 50>>,
    <<40, 91, 98, 100, 102, 103, 104, 106, 107, 108, 109, 110, 112, 114, 115, 116, 118, 122, 93, 91, 97, 105, 111, 117, 93, 41, 123, 50, 125, 91, 98, 100, 102, 103, 104, 106, 107, 108, 109, 110, 112, 114, 115, 116, 118, 122, 93, 40, 45, 40, 91, 98, 100, 102, 103, 104, 106, 107, 108, 109, 110, 112, 114, 115, 116, 118, 122, 93, 91, 97, 105, 111, 117, 93, 41, 123, 50, 125, 91, 98, 100, 102, 103, 104, 106, 107, 108, 109, 110, 112, 114, 115, 116, 118, 122, 93, 41, 123, 49, 125>>>>,
  <<<<112, 114, 111, 113, 117, 105, 110, 116, 52, 56>>,
    <<40, 91, 98, 100, 102, 103, 104, 106, 107, 108, 109, 110, 112, 114, 115, 116, 118, 122, 93, 91, 97, 105, 111, 117, 93, 41, 123, 50, 125, 91, 98, 100, 102, 103, 104, 106, 107, 108, 109, 110, 112, 114, 115, 116, 118, 122, 93, 40, 45, 40, 91, 98, 100, 102, 103, 104, 106, 107, 108, 109, 110, 112, 114, 115, 116, 118, 122, 93, 91, 97, 105, 111, 117, 93, 41, 123, 50, 125, 91, 98, 100, 102, 103, 104, 106, 107, 108, 109, 110, 112, 114, 115, 116, 118, 122, 93, 41, 123, 50, 125>>>>,
  <<<<112, 114, 111, 113, 117, 105, 110, 116, 54, 52>>,
    <<40, 91, 98, 100, 102, 103, 104, 106, 107, 108, 109, 110, 112, 114, 115, 116, 118, 122, 93, 91, 97, 105, 111, 117, 93, 41, 123, 50, 125, 91, 98, 100, 102, 103, 104, 106, 107, 108, 109, 110, 112, 114, 115, 116, 118, 122, 93, 40, 45, 40, 91, 98, 100, 102, 103, 104, 106, 107, 108, 109, 110, 112, 114, 115, 116, 118, 122, 93, 91, 97, 105, 111, 117, 93, 41, 123, 50, 125, 91, 98, 100, 102, 103, 104, 106, 107, 108, 109, 110, 112, 114, 115, 116, 118, 122, 93, 41, 123, 51, 125>>>>,
  <<<<112, 114, 111, 113, 117, 105, 110, 116, 56, 48>>,
    <<40, 91, 98, 100, 102, 103, 104, 106, 107, 108, 109, 110, 112, 114, 115, 116, 118, 122, 93, 91, 97, 105, 111, 117, 93, 41, 123, 50, 125, 91, 98, 100, 102, 103, 104, 106, 107, 108, 109, 110, 112, 114, 115, 116, 118, 122, 93, 40, 45, 40, 91, 98, 100, 102, 103, 104, 106, 107, 108, 109, 110, 112, 114, 115, 116, 118, 122, 93, 91, 97, 105, 111, 117, 93, 41, 123, 50, 125, 91, 98, 100, 102, 103, 104, 106, 107, 108, 109, 110, 112, 114, 115, 116, 118, 122, 93, 41, 123, 52, 125>>>>,
  <<<<112, 114, 111, 113, 117, 105, 110, 116, 57, 54>>,
    <<40, 91, 98, 100, 102, 103, 104, 106, 107, 108, 109, 110, 112, 114, 115, 116, 118, 122, 93, 91, 97, 105, 111, 117, 93, 41, 123, 50, 125, 91, 98, 100, 102, 103, 104, 106, 107, 108, 109, 110, 112, 114, 115, 116, 118, 122, 93, 40, 45, 40, 91, 98, 100, 102, 103, 104, 106, 107, 108, 109, 110, 112, 114, 115, 116, 118, 122, 93, 91, 97, 105, 111, 117, 93, 41, 123, 50, 125, 91, 98, 100, 102, 103, 104, 106, 107, 108, 109, 110, 112, 114, 115, 116, 118, 122, 93, 41, 123, 53, 125>>>>,
  <<<<112, 114, 111, 113, 117, 105, 110, 116, 49, 49, 50>>,
    <<40, 91, 98, 100, 102, 103, 104, 106, 107, 108, 109, 110, 112, 114, 115, 116, 118, 122, 93, 91, 97, 105, 111, 117, 93, 41, 123, 50, 125, 91, 98, 100, 102, 103, 104, 106, 107, 108, 109, 110, 112, 114, 115, 116, 118, 122, 93, 40, 45, 40, 91, 98, 100, 102, 103, 104, 106, 107, 108, 109, 110, 112, 114, 115, 116, 118, 122, 93, 91, 97, 105, 111, 117, 93, 41, 123, 50, 125, 91, 98, 100, 102, 103, 104, 106, 107, 108, 109, 110, 112, 114, 115, 116, 118, 122, 93, 41, 123, 54, 125>>>>,
  <<<<112, 114, 111, 113, 117, 105, 110, 116, 49, 50, 56>>,
    <<40, 91, 98, 100, 102, 103, 104, 106, 107, 108, 109, 110, 112, 114, 115, 116, 118, 122, 93, 91, 97, 105, 111, 117, 93, 41, 123, 50, 125, 91, 98, 100, 102, 103, 104, 106, 107, 108, 109, 110, 112, 114, 115, 116, 118, 122, 93, 40, 45, 40, 91, 98, 100, 102, 103, 104, 106, 107, 108, 109, 110, 112, 114, 115, 116, 118, 122, 93, 91, 97, 105, 111, 117, 93, 41, 123, 50, 125, 91, 98, 100, 102, 103, 104, 106, 107, 108, 109, 110, 112, 114, 115, 116, 118, 122, 93, 41, 123, 55, 125>>>> >>
K_random == <<114, 97, 110, 100, 111, 109>>
K_wordlist == <<119, 111, 114, 100, 108, 105, 115, 116>>
K_preset == <<112, 114, 101, 115, 101, 116>>
ConfName == <<47, 112, 97, 115, 115, 103, 101, 110, 46, 99, 111, 110, 102>>
ConfDir == <<47, 46, 99, 111, 110, 102, 105, 103, 47, 112, 97, 115, 115, 103, 101, 110, 46, 99, 111, 110, 102>>
=============================================================================
