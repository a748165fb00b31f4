#!/usr/bin/env python3
"""Writes patterns.ndjson, the patterns that MC_Gen explores exhaustively."""
import json
W = [{"name": list(b"w"), "level": 1, "bad": 0, "data": list(b"ab\ncde\nf\n")},
     {"name": list(b"m"), "level": 1, "bad": 0, "data": list(b"ab\naab\nb\ncb\n")},
     {"name": list(b"n"), "level": 2, "bad": 0, "data": list("aba\nabd\nb\nдb".encode())},
     {"name": list(b"x"), "level": 2, "bad": 1, "data": []}]
P = []


def add(pat, m="c", lim=-1, limit=1024, env=()):
    P.append({"pat": list(pat.encode()), "m": m, "lim": lim, "limit": limit, "env": [w for w in W if chr(w["name"][0]) in env]})


for p in ["", "a", "ab", "a|b", "a|b|c", "{2}a|b", "{3}a|{2}b|c", "{0}a|b", "a|{0}b|c", "{0}a|{0}b", "{2}{3}a|b", "{}a|b", "|", "a|", "a||b", "a?", "a?b?c?",
          "(a|b)(c|d)", "(a|{3}b)?c", "((a|b)|c)", "((a|b)|{3}(c|d|e))", "[abc]", "[a-c]", "[a-cx-z]", "[a-cb]", "[aa]", "[]", "[]{3}a", "[é-ò]", "[\\-\\]]",
          "[a-c]{2}", "[ab]{0,2}", "[ab]{1,3}", "a{2}", "a{0}", "a{0}b", "a{1,4}", "a{0,3}?", "(a|b){2}", "(a|b){0,2}", "(a[xy]|b){1,2}",
          "ab{2}c", "abcdefghijk?", "\\n\\t\\u{1F600}", "([ab]{1,2}|c){1,2}", "()a", "(){3}", "()?a", "({0}a)b", "((((a))))", "(a(b(c|d)?)?)?",
          "{5}[ab]|{3}(x|y)|z{0,4}", "é?漢{1,2}"]:
    add(p)
for p in ["\\w{w}", "\\w{w}?", "\\w{w}{2}", "(\\w{w}|x)", "\\w{x}", "\\w{zz}", "\\w{}", "a\\w{x}", "\\p{foo}a", "\\w{w}{0,1}x?"]:
    add(p, env="wx")
for p in ["\\m{x}", "\\m{q}", "(\\m{x}|a)"]:
    add(p, env="x")
for p in ["\\m{n}", "\\m{n}?", "\\m{n}{2}", "(a|\\m{n}){1,2}"]:
    add(p, env="n")
for lim in range(0, 5):
    add("[a-b]{0,4}", "u", lim)
    add("(é|a){1,2}x?", "b", lim)
    add("(a|\"|\\n|漢)\\u{1}?", "j", lim)
    add("a{1,3}[xy]", "c", lim)
for lim in (5, 6, 7, 12):
    add("(a|\"|\\n|漢)\\u{1}?", "j", lim)
for lim in range(0, 5):
    add("a|(b|(c|(d|e)))", limit=lim)
    add("(a)(b)(c)(d|(e)){2}", limit=lim)
    add("(()a){3}", limit=lim)
with open(__file__.replace("mkpatterns.py", "patterns.ndjson"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
