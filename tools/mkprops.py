#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = "src/lib.rs"; CH = "src/comment_handler.rs"; ER = "src/error.rs"
GRAM = "the grammar is that of ECMAScript 2018 with dynamic import and optional catch bindings"
def P(id, title, statement, over, text, why, mech, files=(L,), state=(), observe=("the result of parsing a text as script and as module",)):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=list(files), mechanism=[dict(name=n, where=w) for n, w in mech], state=[dict(name=n, meaning=m, where=w) for n, m, w in state], observe_at=list(observe), hook_needed=None))
SAMPLED = "The tests parse a fixed set of texts, most of them valid, and mostly only look at whether parsing succeeds; "
PROPS = [
P("C01", "Every text gets an answer: no panic, no endless run",
  "For every text that splits into tokens, parsing it as script or module, strict or tolerant, all at once or piece by piece, returns a result: a program or an error. It never panics, aborts, loops or overflows its stack on inputs of ordinary nesting. The iterator over program parts ends after finitely many items and stays ended, and whether it ends in an error agrees with whether parsing all at once fails.",
  ["inputs", "configurations"], "every text of tokens, valid or not, times script/module times tolerant/strict",
  SAMPLED + "none runs all malformed token and character combinations, where unreachable branches, index arithmetic and loops that wait for a closing token show.",
  [("Parser::parse and Iterator::next", L), ("token loops that stop at the end of input", L), ("get_item_position, get_lines", L)],
  state=[("found_eof", "set once the end or an error was reached", L)]),
P("C02", "Nothing outside the grammar is accepted",
  "A text whose tokens the ECMAScript grammar does not derive is rejected when tolerance is off, wherever in the text the fault is. This covers missing, superfluous, swapped, doubled and replaced tokens in and around every construct. " + "Left open are duplicate parameter names, duplicate __proto__ entries, an initializer in a for-in head, the arguments of import(), function declarations without a name, and continue naming a label of a statement that is no loop.",
  ["inputs", "programs"], "every token sequence that is not a program: all one-edit neighbours of composed programs and all sequences up to a length, in every context",
  SAMPLED + "a check that is forgotten in one of a hundred places a construct can stand is not met by a few negative examples.",
  [("expected_token_error, expect_punct, expect_keyword in every production", L), ("is_assignment_target / is_binding_element cover-grammar flags", L), ("is_start_of_expr", L)],
  state=[("is_assignment_target, is_binding_element, first_covert_initialized_name_error", "what an expression just parsed may still turn into", L)]),
P("C03", "Every program of the grammar is accepted with its right tree",
  "Every text the grammar derives without static error is accepted, and the syntax tree returned is the one of its derivation: every node, child, operator, flag and name in its place. This holds for every construct nested in every construct, in function, method, class, module, loop and switch contexts.",
  ["inputs", "programs"], "every program: all compositions of the productions up to three levels, in every surrounding context",
  SAMPLED + "they compare trees for a few dozen programs, while a wrong tree needs a particular construct inside another.",
  [("the recursive descent over statements and expressions", L), ("saving and restoring context around every construct", L)],
  state=[("context", "what the surrounding constructs allow here", L)]),
P("C04", "Operators bind by precedence and associativity",
  "In every expression the tree groups operands as precedence and associativity demand, for all binary, logical, assignment, conditional, unary, update and comma operators and parentheses. `in` is an operator everywhere but in the head of a for statement, and a unary operator on the left of ** is rejected.",
  ["inputs"], "every sequence of up to five operators, with unary and postfix operators on each operand, in every place an expression can stand",
  SAMPLED + "precedence is a relation between every two operators at every depth of the operator stack, of which they touch a few.",
  [("parse_binary_expression and its operator stack", L), ("determine_precedence", L), ("parse_conditional_expr, parse_unary_expression, parse_update_expr, parse_exponentiation_expression", L), ("allow_in", L)],
  state=[("allow_in", "whether `in` is an operator here", L)]),
P("C05", "Expressions keep their structure",
  "Member accesses, calls, new with and without arguments, tagged and plain templates, arrays with holes and spreads, conditionals, sequences, super, new.target and import() produce the tree of their derivation in every combination, order and length. Any keyword may follow a dot as a property name.",
  ["inputs", "programs"], "every composition of these expressions up to three levels, every chain up to a length, and every expression followed by every token that may continue it",
  SAMPLED + "the left-recursive chains interact (new with calls, templates with members, line breaks with postfix operators), which needs combinations.",
  [("parse_left_hand_side_expr, parse_left_hand_side_expr_allow_call, parse_new_expr", L), ("parse_template_literal, parse_array_init, parse_args", L)]),
P("C06", "Statements keep their structure",
  "Every statement form - blocks, declarations, if/else, all for loops, while, do, switch, try, with, labels, throw, debugger, empty and expression statements - is accepted with the tree of its derivation and nothing else is: else belongs to the nearest if, cases and clauses keep their order and bodies, for heads keep their kind. A declaration is rejected where only a statement is allowed.",
  ["inputs", "programs"], "every composition of statements up to three levels in every context, their one-edit neighbours, and all token sequences up to a length after each statement head",
  SAMPLED + "dangling else, for-head disambiguation and empty parts need systematic combination.",
  [("parse_statement and the functions it calls", L), ("parse_for_stmt", L), ("parse_switch_stmt, parse_try_stmt", L)]),
P("C07", "Automatic semicolons and restricted productions",
  "A statement may end without semicolon exactly where the language allows it: at a line terminator before a token that cannot continue it, before a closing brace, at the end of the text, and after do-while. After return, break, continue, throw, yield, async, postfix operators and before => a line terminator has the effect the language gives it, and a line terminator anywhere else changes nothing.",
  ["inputs", "programs"], "a line terminator in every gap of every composed program, and every statement after every statement with and without separators",
  SAMPLED + "the rule depends on the pair of tokens around each gap; the tests have few gaps.",
  [("consume_semicolon", L), ("has_line_term, set in next_item", L)],
  state=[("has_line_term", "a line terminator stands before the next token", L)]),
P("C08", "Comments and white space change nothing and comments are handed over",
  "Blanks, line terminators of every kind and comments of every kind between any two tokens leave the tree as it is, except that a line terminator (also one inside a comment) counts as one for semicolon insertion. The comment handler receives every comment of the text exactly once, in order, with its exact text and span.",
  ["inputs"], "every filler of a list of blanks, terminators and comments in every gap of every composed program",
  SAMPLED + "comments occur in few places of the test texts and the handler is tested on a handful.",
  [("next_item skipping comments and setting has_line_term", L), ("CommentHandler::handle_comment", CH)], files=(L, CH),
  observe=("the tree", "the calls of the comment handler")),
P("C09", "Literals and names keep their text",
  "Every number, string, template part, regular expression, directive, identifier, property name and label in the tree carries exactly the characters of the source, whatever they are and wherever the token stands. Quotes, delimiters and flags are separated from the content exactly where the language does.",
  ["inputs"], "every short text over the characters that matter for each kind of literal and name, in every kind of place",
  SAMPLED + "slicing by byte offsets goes wrong only for particular characters at the ends of a literal.",
  [("parse_primary_expression slicing regular expressions", L), ("parse_template_element", L), ("parse_directive", L), ("get_string", L)]),
P("C10", "An error points at the token where the text goes wrong",
  "The position of an error is the line and column of a token or of the end of the text; when the tokens leave the grammar it is the first token with which no program is possible any more, or an earlier one that already breaks a static rule; when a text that the grammar derives breaks a static rule, the position is in the construct that breaks it. Lines are counted the same for every line terminator (also inside comments and literals), and the position does not depend on how the tokens are laid out.",
  ["inputs"], "every one-edit neighbour of composed programs, times blanks, line terminators and comments in every gap; every statically forbidden composition and list entry; errors on each of many lines",
  SAMPLED + "positions are compared in very few of them and mostly on the first line.",
  [("get_item_position and the line table", L), ("get_lines", L), ("current_position, look_ahead_position", L), ("Error positions", ER)], files=(L, ER),
  state=[("lines", "start and end of every line", L)], observe=("the position in the error",)),
P("C11", "What was parsed before does not change what comes after",
  "Once a construct is complete, the meaning of what follows is that of its own surroundings: no function, class, loop, switch, label, strict directive, arrow parameter list, template, for head or pattern leaves anything behind for its successors.",
  ["inputs", "histories"], "every ordered pair of a composed program and a probe sensitive to one piece of context",
  SAMPLED + "a context flag that is not restored on one path shows only in a later construct that asks for it.",
  [("save and restore of every context field", L), ("isolate_cover_grammar / inherit_cover_grammar", L)],
  state=[("context", "fields saved and restored around constructs", L)]),
P("C12", "Words that are reserved only sometimes are names otherwise",
  "async, await, get, set, of, static, as, from, let, yield, target and the like are identifiers, property names, labels and bindings wherever the language lets them be, and act as keywords exactly where it does not.",
  ["inputs", "programs"], "every such word in the place of every name of every composed program, and all token sequences up to a length around each word",
  SAMPLED + "they use these words in their usual role only.",
  [("is_var_ident, at_contextual_keyword, at_possible_ident", L), ("at_qualified_prop_key", L), ("at_let_declaration in statement position and for heads", L)]),
P("C13", "Jumps and context-bound expressions are allowed exactly in their context",
  "break, continue, return, labels, yield, await, for await, super, super() and new.target are accepted exactly inside the constructs that give them a meaning, through any nesting of functions, arrows, methods, classes, loops, switches, labels and blocks.",
  ["inputs", "programs"], "every such statement and expression in every nesting of up to three contexts out of several dozen",
  SAMPLED + "they hold a few nestings out of hundreds of thousands.",
  [("in_iteration, in_switch, label_set, in_function_body, super_property, super_call, new_target, allow_yield, await in the context", L)],
  state=[("label_set", "labels in force", L), ("in_iteration / in_switch", "a jump has a target", L)]),
P("C14", "Functions of every kind are read as what they are",
  "Declarations, expressions, arrows, methods, getters, setters and constructors, with any combination of async and generator, keep name, kind, parameters, defaults, rest and body in the tree. A parameter list or head the grammar does not allow for that kind is rejected, and arrow functions are told from parenthesized expressions and calls.",
  ["inputs", "programs"], "every kind of function with every kind of parameters and body up to three levels, and all token sequences up to a length in heads and parameter lists",
  SAMPLED + "the cover grammar for arrows is decided after the fact, from flags that every nested expression can set.",
  [("parse_function_decl, parse_function_expr, parse_formal_params", L), ("parse_assignment_expr and reinterpret_as_cover_formals_list", L), ("parse_async_args, parse_group_expr", L), ("method parsers", L)]),
P("C15", "Patterns and assignment targets",
  "Array and object patterns are accepted in declarations, parameters, catch clauses, for heads and assignments with the tree of their derivation, including defaults, holes, rest, computed and shorthand properties at every depth. What is not a valid target or pattern is rejected on the left of every assignment, update and for-in/of.",
  ["inputs", "programs"], "every pattern up to three levels in every place, their one-edit neighbours, and every expression as a target of every operator",
  SAMPLED + "whether an object literal is a pattern is decided long after it was read.",
  [("parse_pattern, parse_array_pattern, parse_object_pattern", L), ("is_assignment_target, check_cover_initialized_name", L), ("reinterpret_expr_as_pat", L)]),
P("C16", "Classes and object literals",
  "Class and object members of every kind - static or not, getter, setter, method, generator, async, computed, with names of every kind, shorthand, spread - are told apart and kept with name, kind, flags and value in the tree, in order. Members the grammar or its static rules forbid are rejected.",
  ["inputs", "programs"], "every member, every pair of members, and all token sequences up to a length inside class and object bodies",
  SAMPLED + "get, set, static and async are modifiers or names depending on the next token, which multiplies the cases.",
  [("parse_class_body, parse_class_el", L), ("parse_obj_init, parse_obj_prop", L), ("at_qualified_prop_key", L)]),
P("C17", "Imports and exports",
  "Every form of import and export is accepted in a module with the tree of its derivation: default, namespace, named with and without renaming, bare, re-export, and exported declarations. They are rejected anywhere but at the top level of a module and when the names are not allowed there.",
  ["inputs", "programs"], "every import and export form with every name, and all token sequences up to a length after import and export",
  SAMPLED + "modules are a small part of them and hardly any of them is malformed.",
  [("parse_import_decl, parse_import_specifier and the others", L), ("parse_export_decl", L)]),
P("C18", "Incomplete and unbalanced texts are rejected",
  "A text that ends before its last construct is complete, or whose brackets, braces, parentheses and template parts do not match, is never accepted as a program. What is accepted of a cut-off text is exactly what happens to be a program by itself.",
  ["inputs"], "every prefix, by token and by character, of every composed program, and every removal, doubling or exchange of brackets",
  SAMPLED + "hardly any of them ends early.",
  [("loops ending at the end of input", L), ("expect_punct at the end of constructs", L)]),
P("C19", "Strict mode holds exactly where it should",
  "Strict rules (reserved words, with, delete of names, eval and arguments as bindings or targets, legacy octal numbers, functions in statements) apply in modules, classes and code under a use strict directive, in nested code and in the names and parameters of a strict function, and nowhere else. Only a leading, exact string statement is a directive.",
  ["inputs", "programs"], "every strict-sensitive statement in every place relative to a directive, class or function, in every context",
  SAMPLED + "a directive affects text before it (parameters) and must not affect text after its function.",
  [("parse_directive", L), ("context.strict saved and restored by functions and classes", L), ("allow_strict_directive, past_prolog", L)],
  state=[("strict", "strict mode is on", L), ("past_prolog", "directives are no longer possible", L)]),
P("C20", "Size does not matter",
  "What holds for a construct holds for it at any length and depth: lists of any number of elements, nestings of any depth, names, literals, blanks and comments of any length, and any number of statements before and after it give the same answer and the corresponding tree.",
  ["inputs"], "every list-like construct with every number of elements up to a bound, every two productions nested alternately up to a bound, tokens of every length up to a bound",
  SAMPLED + "they use small programs or a few large libraries of which only acceptance is checked.",
  [("operator stack in parse_binary_expression", L), ("line table and binary search in get_item_position", L), ("recursion", L)]),
P("C21", "All entry points agree",
  "Parsing all at once, iterating, the builder in all its variants and the constructor give the same program, the same error and the same acceptance for the same text and settings. The parts yielded before an error are exactly those of the statements in front of it. An expression parsed by itself gives the tree it has in a program.",
  ["inputs", "configurations"], "every composed program and every one-token deletion of it through every entry point, and every error after every program",
  SAMPLED + "each uses one entry point.",
  [("Parser::new, Builder, parse, Iterator::next", L)],
  state=[("found_eof", "set once the end or an error was reached", L)], observe=("the results of every entry point",)),
P("C22", "Tolerance only ever accepts more",
  "Every text accepted without tolerance is accepted with tolerance and gives the same tree. When tolerance accepts a text that the grammar derives but a static rule forbids, the tree is the one of that derivation.",
  ["inputs", "configurations"], "every composed program and every one-edit neighbour of it, with tolerance off and on",
  SAMPLED + "tolerance is hardly used by any.",
  [("config.tolerant, tolerate_error", L), ("expect_comma_sep", L)]),
P("C23", "An error says what is wrong",
  "An error that names a token names the one at its position, as it stands in the text, or the end of the text; its printed form holds that position and message. A getter with parameters, a setter without exactly one, a label declared twice and a strict rule are reported as such errors only where that rule is broken, and the first three are if nothing else is wrong. No error is about the parser's own state.",
  ["inputs"], "every one-edit neighbour of composed programs and every statically forbidden program of the lists that is rejected",
  SAMPLED + "they look at most at whether there is an error.",
  [("expected_token_error, unexpected_token_error", L), ("Display for Error", "src/error.rs"), ("op_error, redecl_error, reinterpret_error", L)], observe=("the error a text is rejected with",)),
P("C24", "Parsers work step by step and independently of each other",
  "Stepping a parser yields one top-level item after the other, then the error or the end, then nothing more; when an item is yielded, the comments in it have been handed over and none from within the next. Any number of parsers, built by one builder that is changed in between or by several, before or between the steps of others, can be stepped in any order: each yields exactly what it yields alone.",
  ["inputs", "histories", "schedules"], "every interleaving of the steps of two parsers over a list of texts, and of three over the short ones, with every way of building them",
  SAMPLED + "they never use two parsers at once and never look at when a comment is handed over.",
  [("Iterator::next", L), ("next_item and the comment handler", L), ("Builder", L)],
  state=[("look_ahead", "one token in front of the parser", L), ("context", "belongs to one parser", L)], observe=("the parts, errors and comments of every step",)),
P("C25", "A parser gives each part once, and no program after an error",
  "Whatever calls are made on one parser: every top-level item is given once, in order, by whichever call comes to it; parse gives the items not given yet. parse_expression gives the expression the text goes on with and leaves the rest of the text, from the token behind it, to the next call, or is an error at the end of the text. After the end, next gives nothing and parse an empty program; after an error of next or parse, next gives nothing and parse is an error, never a program.",
  ["inputs", "histories"], "every history of calls up to a few more than the text has parts, over composed programs and their one-edit neighbours",
  SAMPLED + "they make one call on a parser, or iterate to the end.",
  [("Parser::parse", L), ("Iterator::next", L), ("Parser::parse_expression", L)],
  state=[("failed", "an error has been given", L), ("look_ahead", "one token in front of the parser", L)], observe=("the answer to every call",)),
]
NOTE = "Exhaustive within the bounds listed in the evidence file: the real parser is run on every member of every listed space and compared with an independent reference grammar, itself cross-checked against the parser acorn. Trusted: the reference grammar, and the tokenizer (crate ress) for texts it does not split as intended, which are counted as skipped. Beyond the bounds nothing is shown."
CHECKS = [dict(property=p["id"], quick_cmd=f"./check.sh {p['id']}", thorough_cmd=f"VERIF_TIER=thorough ./check.sh {p['id']}", evidence_file=f"evidence/{p['id']}.json",
    technique="bounded exhaustive exploration of the real parser against a reference grammar (explicit-state)", level="model_checking", level_note=NOTE) for p in PROPS]
with open(D + "/properties.jsonl", "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
json.dump(dict(version=1, setup_cmd="./check.sh build", checks=CHECKS, not_applicable=[], notes="No hooks in /repo: the checks use its public interface only. See DESIGN.md."), open(D + "/MANIFEST.json", "w"), indent=1)
