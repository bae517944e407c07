#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run after editing; both are committed)."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PARSER = "crates/compiler/parser/src/parser.rs"
LEXER = "crates/compiler/parser/src/lexer.rs"
FMT = "crates/compiler/formatter/src"
SEM = "crates/compiler/semantic/src"
P = []
NA = []

def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None, hook=None, state=None):
    assert len(title) <= 80, title
    assert statement.count(". ") <= 2, (id, statement)
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: anchors["state"] = state
    if observe: anchors["observe_at"] = observe
    anchors["hook_needed"] = hook
    P.append((dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text},
                   why_tests_cant=why, anchors=anchors), technique, note))

def na(id, title, statement, over, text, why, files, mech, reason):
    assert len(title) <= 80, title
    NA.append((dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                    anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}), reason))

EXH = "bounded exhaustive exploration of the real code against a reference model"
HOOK = "cfg(cairo_m_vp) boxes recursive combinators so that the parser compiles quickly; behaviour is the same"

prop("C01", "Every text gets an answer: a program or located errors",
  "For every text, parsing ends without a panic or a hang and gives either a program or at least one error diagnostic. Every diagnostic carries a non-empty message, the file's own path and a span inside the text on character boundaries. Each character or number that is no token is reported at its own position.",
  ["inputs"], "all texts, including malformed, truncated, non-ASCII and deeply nested ones",
  "Tests feed some dozens of chosen invalid snippets; the guarantee is about every byte sequence an editor can hold, including each truncation of a real file.",
  [LEXER, PARSER, "crates/compiler/diagnostics/src/diagnostics.rs"],
  [("lexing before parsing; lexical errors suppress parsing", PARSER + " parse_file"), ("error conversion", PARSER + " parse_file")],
  EXH,
  "Every string up to the stated length over 32 characters in three contexts, every single-token edit of 200 corpus programs, every nesting depth up to the bound. Trusts the reference grammar for which texts are programs.",
  ["parse_file output"], HOOK)
prop("C02", "Texts are split into the documented tokens with exact values",
  "A text is split into the longest tokens of the language with exact spans: keywords only as whole words, two-character operators before one-character ones, whitespace and `//` comments skipped. A number has the value of its digits in its base (decimal, 0x, 0o, 0b) and the suffix it ends with; a number whose value exceeds 64 bits, or whose digits do not fit its base, is an error and never another value.",
  ["inputs"], "all character sequences",
  "Tests list about twenty literals and a few operator mixes; adjacent tokens, value limits in each base and suffix ambiguities such as 0xFFfelt form an unbounded space.",
  [LEXER], [("token rules", LEXER + " TokenType"), ("number parsing", LEXER + " parse_number_literal")],
  EXH,
  "All sequences of up to 4-5 pieces (6 in the thorough tier) over number, operator and word alphabets, value boundaries 2^k±2 in every base with every suffix, every single-character edit of every keyword.",
  ["token stream", "literal value in the tree"])
prop("C03", "Expressions group by the documented precedence and associativity",
  "The tree of an expression is the one that the documented grammar gives it: postfix, prefix, `as`, `* / %`, `+ -`, comparisons, bitwise operators, `&&` and `||` from tightest to loosest, binary operators and casts grouping to the left. Texts that are no expression of the grammar are rejected.",
  ["programs"], "all token sequences",
  "Tests snapshot a few hand-picked mixes of operators; a wrong grouping shows only for particular neighbours out of all operator pairs and nestings.",
  [PARSER], [("precedence tiers by left folds", PARSER + " expression_parser"), ("parenthesis/tuple rule", PARSER + " expression_parser")],
  EXH,
  "Breadth-first over token sequences with viable-prefix pruning: all sequences to length 4-5, all viable ones to 6-7, compared tree by tree with an independent recursive-descent parser.",
  ["parse_file output"], HOOK)
prop("C04", "Statements, items, types and patterns parse exactly as the grammar says",
  "A text is accepted as a program exactly when it is one by the documented grammar of items, statements, conditions, `for` headers, types, patterns and imports, and its tree is the one that grammar gives. Statements attach as written: an `else` belongs to the nearest `if`, a body is the one statement that follows, an optional trailing comma changes nothing except a one-element tuple.",
  ["programs"], "all token sequences",
  "Tests sample well-formed and malformed snippets; acceptance of every token sequence (missing, doubled, swapped tokens) cannot be sampled.",
  [PARSER], [("statement parser", PARSER + " statement_parser"), ("items", PARSER + " top_level_item_parser"), ("types", PARSER + " type_expr_parser")],
  EXH,
  "Breadth-first over token sequences of seven sub-languages with viable-prefix pruning, compared with an independent recursive-descent parser.",
  ["parse_file output"], HOOK)
prop("C05", "Layout is irrelevant to the tree and spans always cover the construct",
  "White space, line endings and comments between tokens never change the tree of a program. Every node's span covers exactly the text of its construct at its place in the file, in bytes, whatever the layout and whatever non-ASCII text precedes it.",
  ["inputs"], "all programs in all layouts",
  "Tests use one layout per program and check spans only through rendered messages; the combination of every gap with every separator is out of their reach.",
  [PARSER, LEXER], [("skip rules", LEXER + " TokenType"), ("span widening", PARSER)],
  EXH,
  "Every accepted program of seven small languages and of the corpus, each gap (pairs of gaps for short programs) with each of six separators, compared including all node spans. Known finding: spans of calls and index accesses stop before the closing delimiter.",
  ["parse_file output"], HOOK)
prop("C06", "Formatting never changes the program",
  "The formatted text of a program parses, and to the same program: same items, statements, names, types, literal values and suffixes, and operator grouping, redundant parentheses aside. This holds for every line width and indentation width.",
  ["programs", "configurations"], "all programs, all formatter settings",
  "Tests compare a few formatted snippets to snapshots; whether the output still means the same is never re-parsed, and construct combinations are unbounded.",
  [FMT + "/rules/expressions.rs", FMT + "/rules/statements.rs", FMT + "/rules/items.rs", FMT + "/rules/types.rs", FMT + "/doc.rs"],
  [("formatting rules", FMT + "/rules"), ("document renderer", FMT + "/doc.rs")],
  EXH,
  "Every accepted token sequence of nine small languages up to the bound and the corpus, in five configurations; the output is parsed again and compared.",
  ["format_source_file output"], HOOK)
prop("C07", "Formatting twice gives the same text as formatting once",
  "Formatting a formatted text returns it unchanged, for every program, with comments anywhere, and for every setting.",
  ["programs", "configurations"], "all programs with comments anywhere, all settings",
  "Tests check idempotence on three files; each construct's output must be a fixed point in every context.",
  [FMT + "/rules/statements.rs", FMT + "/comment_attachment.rs", FMT + "/doc.rs"],
  [("formatting rules", FMT + "/rules"), ("comment attachment", FMT + "/comment_attachment.rs")],
  EXH,
  "Every accepted token sequence of nine small languages, the corpus, five configurations, and a comment in each gap of the short programs.",
  ["format_source_file output"], HOOK)
prop("C08", "Formatting keeps every comment, in order and in place",
  "Every comment of a program is in the formatted text with the same words, in the same order, after the same preceding code and before the same following code. A comment on a line of its own next to an item, field or statement, or at the end of its line, does not keep the rest of the file from being formatted as it would be without it.",
  ["programs"], "all programs with comments at all places",
  "Tests place comments in about twenty positions; the guarantee is about every gap between two tokens.",
  [FMT + "/comment_attachment.rs", FMT + "/trivia.rs", FMT + "/context.rs"],
  [("attachment to items, fields, statements", FMT + "/comment_attachment.rs"), ("safety net: text left alone", FMT + "/api.rs")],
  EXH,
  "One comment (three forms) in every gap of every accepted program of nine small languages and the corpus, every pair of gaps for short programs.",
  ["format_source_file output"], HOOK)
prop("C09", "Formatted text is canonical; text that does not parse is untouched",
  "The formatted text depends only on the tokens and comments of the program, not on its layout: lines are indented by nesting depth times the indentation width, without trailing blanks, with one final line break. A text that does not parse comes back unchanged.",
  ["inputs", "configurations"], "all programs in all layouts, all other texts",
  "Tests compare a few outputs; two layouts of the same program are never compared.",
  [FMT + "/api.rs", FMT + "/doc.rs", FMT + "/rules/statements.rs", FMT + "/rules/items.rs"],
  [("rendering from the tree alone", FMT + "/rules"), ("guard on diagnostics", FMT + "/api.rs")],
  EXH,
  "Every accepted token sequence of nine small languages, each gap with each separator; all short sequences that do not parse.",
  ["format_source_file output"], HOOK)

for part in ("props_sem.py", "props_pipe.py", "props_prove.py", "props_ls.py"):
    if os.path.exists(os.path.join(ROOT, "tools", part)):
        exec(open(os.path.join(ROOT, "tools", part)).read())

def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p, _, _ in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
        for p, _ in NA:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout
    commits = [l.split()[0] for l in hooks.splitlines() if " verif hook:" in l]
    m = {
      "version": 1,
      "setup_cmd": "bash setup.sh",
      "hooks": {"guard": "cairo_m_vp", "enable": "RUSTFLAGS='--cfg cairo_m_vp' (set by env.sh)", "source_commits": commits},
      "checks": [
        {"property": p["id"], "quick_cmd": f"VERIF_TIER=quick bash check.sh {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {p['id']}",
         "technique": t, "level": "model_checking", "level_note": n} for p, t, n in P],
      "not_applicable": [{"property": p["id"], "reason": r} for p, r in NA],
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False); f.write("\n")
main()
