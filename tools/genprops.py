#!/usr/bin/env python3
"""Writes properties.jsonl (the property list is edited here)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

DOM = "src/dom.rs"; SAX = "src/sax.rs"; XP = "src/xpath.rs"; EV = "src/xpath_impl/eval.rs"; OP = "src/xpath_impl/oper.rs"
FN = "src/xpath_impl/func.rs"; XI = "src/xpath_impl/xitem.rs"; XS = "src/xpath_impl/xsequence.rs"; PA = "src/xpath_impl/parser.rs"
ORD = ("order", "cached position of a node in document order; 0 on a tree's top means 'not computed'", "src/dom.rs struct Node")
PAR = ("parent", "weak reference to the parent (or owner element)", "src/dom.rs struct Node")
KID = ("children / attributes", "owned, ordered lists of nodes", "src/dom.rs struct Node")

prop("C01", "Reads and serialisation reflect exactly the edits made so far",
 "After any sequence of edits made through any node handles of a document tree, every read (node type, name, local name, prefix, value, children, nth child, attributes, attribute value, parent, root, root element, namespace URI, string, inner, pretty and debug serialisation) returns exactly what applying those edits, one after another, to a plain ordered tree gives. An edit changes only its target position: every other node keeps its identity, name, value, parent and place. An edit that has no valid target (sibling insertion or replacement at a node without a parent, deleting a node that is not a child, deleting a missing attribute) changes nothing.",
 ["histories", "schedules"],
 "every history of edits and reads by several clients that hold handles into the same and different trees, in every interleaving at API-call granularity and nested inside node-iteration callbacks",
 "The doc tests make one edit to one small document and compare one string; they never combine edits, never read through a second handle taken before the edit, and never check the untouched rest of the tree.",
 [DOM],
 [("append_child / insert_as_previous_sibling / insert_as_next_sibling / replace_with / delete_child", "src/dom.rs impl NodePtr"), ("set_attribute / delete_attribute", "src/dom.rs impl NodePtr"), ("to_string_with_indent / encode_entity", "src/dom.rs")],
 ["NodePtr accessors", "to_string", "inner_xml", "to_pretty_string", "Debug/Display of NodePtr"], [KID, PAR])

prop("C02", "XPath node selection is current, duplicate-free and in document order",
 "At any point of any edit history, a path query evaluated from any live node (all axes, name and kind tests, positional and boolean predicates, union, intersect, except, quantifiers, for, node comparisons, count) selects exactly the nodes that the current tree prescribes, each once, in current document order. This covers nodes inserted, moved in by copy, or detached since earlier queries, and trees whose original document root is gone; << and >> and 'is' agree with the same order. A query never selects a node that is not in the context node's current tree.",
 ["histories", "schedules", "inputs"],
 "every query over the structural subset of XPath, from every context node, after every prefix of every edit history, whether or not document order was computed earlier",
 "Every existing XPath test parses a fresh document and queries it once; nothing edits between two queries, so a stale order cache, a wrong parent link after insertion or a leftover node cannot show.",
 [DOM, EV, OP, XP],
 [("document_order / setup_document_order / clear_document_order", "src/dom.rs impl NodePtr"), ("sort_by_doc_order / compare_by_doc_order", "src/xpath_impl/eval.rs EvalEnv"), ("match_loc_step and the array_* axis functions", "src/xpath_impl/eval.rs"), ("op_union / op_intersect / op_except / op_node_before", "src/xpath_impl/oper.rs")],
 ["get_nodeset", "get_first_node", "each_node", "eval_xpath", "document_order"], [ORD, PAR, KID])

prop("C03", "Query results depend only on present content, not on history",
 "For every XPath expression, evaluating it in a tree reached through any history of edits, earlier queries, failed queries and panicking callbacks gives the same result or the same error as evaluating it at the corresponding node of a freshly parsed tree with the same content. Evaluating an expression, successfully or not, changes neither the document nor the result of any later evaluation.",
 ["histories", "fault_sequences", "inputs"],
 "every expression of the supported language (functions, maps, arrays, inline functions, types, errors included) and every history leading to a given content",
 "Tests evaluate each expression against one freshly parsed document, so state left behind by an edit, an earlier query or an error is never exercised.",
 [EV, DOM, FN, XP, XS],
 [("new_eval_env per evaluation", "src/xpath_impl/eval.rs match_xpath"), ("set_position / set_last restore, set_var / remove_var", "src/xpath_impl/eval.rs"), ("document_order cache", "src/dom.rs")],
 ["eval_xpath", "get_nodeset", "to_string of the document before and after"],
 [ORD, ("EvalEnv", "position, last and variable stack of one evaluation", "src/xpath_impl/eval.rs")])

prop("C04", "Inserted content is an independent copy",
 "append_child, insert_as_previous_sibling, insert_as_next_sibling and replace_with put at the target position a copy of the given node tree as it was at the moment of the call, with every copied node's parent being its place in the destination. From then on the source and every copy are independent: no edit, drop or query on one is visible in another, even when the source is the target itself, its ancestor, its descendant, or is inserted many times. The source tree, its document and all handles into it are unchanged by the insertion.",
 ["histories", "schedules"],
 "every choice of source and target nodes (same tree, other tree, ancestor, descendant, orphan, same node) in every history of later edits to source and copies",
 "Tests insert a root element of a throw-away document and look at one serialisation; they never edit source or copy afterwards and never insert within one tree.",
 [DOM],
 [("append_child / insert_as_previous_sibling / insert_as_next_sibling / replace_with", "src/dom.rs impl NodePtr"), ("copying of a node with attributes and children", "src/dom.rs")],
 ["to_string of source and destination", "parent/root of copied nodes", "node identity (==)"], [KID, PAR])

prop("C05", "Node handles stay valid whatever else is dropped, removed or replaced",
 "A node handle keeps its node, attributes and whole subtree readable, editable and queryable no matter which other handles, ancestors or document roots have been dropped, deleted or replaced, and in which order; no operation on it panics. A node whose parent is gone (dropped, or it was deleted or replaced) has no parent and is the root of its own tree, within which root, root element, namespace lookup, edits and XPath work as in any tree. Handles that survive never keep ancestors visible that were removed from above them.",
 ["histories", "fault_sequences"],
 "every order of handle drops, client crashes (all of a client's handles dropped at once), document-root drops, deletions and replacements, at every point of every edit history",
 "Tests keep the document root alive in a local variable until the end of the test, so no handle ever outlives its tree.",
 [DOM],
 [("weak parent reference and its upgrade", "src/dom.rs parent / root / namespace_uri"), ("removal of children and attributes", "src/dom.rs delete_child / delete_attribute / set_attribute")],
 ["every NodePtr method on surviving handles", "absence of panics"], [PAR, KID])

prop("C06", "Node iteration visits a fixed snapshot exactly once, in order",
 "each_node calls its callback exactly once for every node the query selected at the time of the call, in document order, whatever the callback does: editing or deleting visited or unvisited nodes, inserting new matches, running further queries, nesting iterations, dropping handles. Edits made in the callback take effect immediately for reads in the callback and afterwards. If the callback panics or the query is in error, the document holds exactly the edits made before that point and stays fully usable.",
 ["histories", "schedules", "fault_sequences"],
 "every query, every sequence of re-entrant operations by the iterating client and by other clients scheduled between two visits, every visit at which the callback aborts",
 "Existing callbacks only read attributes of the visited node; none edits, re-enters, deletes or panics.",
 [XP, DOM],
 [("each_node collecting the node set before the first call", "src/xpath.rs each_node"), ("RefCell borrows released before user code runs", "src/dom.rs")],
 ["sequence of nodes passed to the callback", "document content after normal and aborted iteration"], [KID])

prop("C07", "Saving and reloading a document loses nothing, at any point of its history",
 "Serialising a node at any point of any edit history and parsing the saved text in a later process gives a tree with the same element names, attributes in order, comments, processing instructions, XML declaration and character data (adjacent text merged, empty text dropped), for every character allowed in XML. Serialising the reloaded tree again gives the identical text (up to writing an element that held only empty text as an empty-element tag), so any number of save, crash and restart cycles in which the stored bytes are intact preserves the document. Serialising never changes the document.",
 ["histories", "crash_points", "inputs"],
 "every edit history, every point at which the document is saved, every crash and restart of the owning process between saves, attribute values and text over all XML characters",
 "The single round-trip doc test has one element of ASCII text; no test puts markup characters, carriage returns or control characters through set_attribute and back.",
 [DOM, SAX],
 [("to_string_with_indent / encode_entity", "src/dom.rs"), ("decode_entity, line-end handling", "src/sax.rs"), ("new_document", "src/dom.rs")],
 ["to_string", "new_document", "structure of the reparsed tree"])

prop("C08", "A damaged document is rejected or read exactly, never shortened",
 "Parsing any stored document, however truncated, torn, zero-filled, duplicated or otherwise corrupted, terminates, does not panic and uses memory bounded by a multiple of its length. A text that ends inside a tag, comment, CDATA section, processing instruction, declaration or quoted value, whose elements are not all closed or not closed in order, or that contains U+0000, is always rejected with an error; so is one with a tag that holds anything besides a name and attributes with quoted values, or with an instruction that has no name. A text that is malformed in another way (document type declarations and invalid character references aside) is rejected or read exactly as it stands, with nothing dropped. A text that is still well-formed (document type declarations aside) is always accepted and gives exactly the tree it describes.",
 ["inputs", "fault_sequences", "crash_points"],
 "every document of the supported syntax and every truncation point, torn or short write, zero-filled, duplicated or stale sector and flipped byte in its stored form",
 "Tests contain two hand-written truncated inputs at the tokenizer level and none at document level; whole classes of cut points loop, are silently accepted or drop data without any test noticing.",
 [SAX, DOM],
 [("end-of-input checks in raw_token and its helpers", "src/sax.rs"), ("element nesting check", "src/dom.rs new_document")],
 ["Ok/Err of new_document", "structure of the returned tree", "step and memory budget"],
 [("index", "read position in the character vector", "src/sax.rs SaxDecoder")])

prop("C09", "Concurrent SAX decoders are independent, make bounded progress, localise damage",
 "Each SAX decoder returns the token sequence determined by its own input alone, whatever other decoders or documents are processed between its calls, including after errors. Every call terminates; after at most 2n+2 calls on an input of n characters the decoder reports end of input and keeps reporting it. Tokens that end before the first damaged character are the same as for the undamaged text (except that a text containing U+0000 may be refused as a whole), and a self-closed element always yields its start token immediately followed by its end token.",
 ["schedules", "inputs", "fault_sequences"],
 "every interleaving of calls to several decoders over intact and damaged inputs",
 "The decoder test runs one decoder to the end over fifteen fixed strings.",
 [SAX],
 [("raw_token and to_close", "src/sax.rs impl SaxDecoder"), ("getchar / ungetchar / look_ahead_keyword", "src/sax.rs"), ("decode_entity", "src/sax.rs")],
 ["token stream of each decoder", "number of calls until EOF"],
 [("to_close", "pending end token of a self-closed element", "src/sax.rs SaxDecoder")])

prop("C10", "The command-line tool never reports success with wrong or partial output",
 "Running the tool on a file exits with status 0 only if it wrote to standard output exactly the pretty-printed form of the file's whole content followed by a newline. Short reads and writes, interrupted system calls and arbitrary chunking never change the output or the status. On any other failure (open, read, write, full disk, closed pipe, file truncated while being read, invalid UTF-8, malformed XML, failed allocation) it terminates with a non-zero status, having written at most a prefix of the correct output.",
 ["fault_sequences", "inputs"],
 "every input file and every sequence of system-call results (chunk sizes, interruptions, errors at any call) seen by one run of the program",
 "No test runs the binary; nothing injects I/O faults.",
 ["src/main.rs", DOM, SAX],
 [("error propagation and exit status", "src/main.rs main / pretty_print"), ("to_pretty_string", "src/dom.rs")],
 ["exit status", "bytes written to standard output"])

prop("C11", "Results do not depend on threads, hash seeds, memory addresses or clock",
 "The results of a client's operations on its own documents (values, orders, serialisations, errors, map key order) are the same in every process and run, whatever other threads do with other documents at the same time, at every interleaving, and whatever the hash seeds, memory addresses, clock and environment are. Documents and evaluations in different threads do not interfere.",
 ["schedules", "configurations"],
 "every interleaving of several threads at basic-block granularity, every hash seed, address placement and clock behaviour, for every script of parse, edit, query and serialise operations",
 "Tests run each scenario once in one thread with whatever seed and addresses the process happens to get, and never compare two executions.",
 [DOM, SAX, EV, FN, XI, PA, "src/xpath_impl/lexer.rs"],
 [("no global mutable state; per-evaluation environment", "src/xpath_impl/eval.rs match_xpath"), ("hash maps used only as lookup tables; map entries kept in a vector", "src/xpath_impl/lexer.rs, src/xpath_impl/xitem.rs")],
 ["transcript of all results of each thread"])

prop("C12", "Dropping the last handle releases everything",
 "When the last handles and results of a workload are dropped, all memory the library allocated for it is released: after any history of parsing, editing, querying (successful, failing or panicking) and iterating, repeating the same history does not increase the amount of memory in use. In particular no tree, copy, removed node, attribute, compiled query or result stays reachable from inside the library.",
 ["histories", "fault_sequences"],
 "every history of operations including failing and aborted ones, and every order of drops",
 "No test measures memory or repeats a workload.",
 [DOM, XI, XS, PA, EV],
 [("weak parent links, so that trees contain no reference cycles", "src/dom.rs struct Node"), ("reference-counted compiled query nodes", "src/xpath_impl/parser.rs")],
 ["bytes and blocks live after the last drop"], [PAR])

prop("C13", "Results already returned never change",
 "A sequence, item, node vector, child or attribute list, or string that has been returned keeps its length, order, node identities and atomic values whatever happens afterwards: edits, deletions, other queries, reads of other results, dropped documents. Node items inside a result are live handles: reading through them shows the current state of exactly those nodes. Reading a result any number of times gives the same answer as long as the nodes in it are not edited.",
 ["histories", "schedules"],
 "every result held across every later history of edits, queries and drops by any client",
 "Tests consume each result immediately and drop it before anything else happens.",
 [XP, XS, XI, DOM],
 [("sequences hold their own vectors of values and node handles", "src/xpath_impl/xsequence.rs, src/xpath.rs Sequence"), ("children / attributes return fresh vectors", "src/dom.rs")],
 ["Sequence::len / to_string / get_item", "Item::as_nodeptr / to_string", "vectors returned by get_nodeset, children, attributes"])

# ---- pure functions of their input: listed, not claimed --------------------------------
def pure(id, title, statement, qtext, why, files, mech, observe):
    prop(id, title, statement, ["inputs"], qtext, why, files, mech, observe)

pure("P01", "XPath grammar and operator precedence follow the specification",
 "Every expression of the supported XPath grammar is parsed with the precedence and associativity of the XPath 3.1 specification, and every string outside the grammar is rejected with a syntax error.",
 "all expression strings", "Tests cover a fixed list of expressions.", ["src/xpath_impl/lexer.rs", PA], [("recursive-descent parser", PA)], ["eval_xpath"])
pure("P02", "Numeric operators and functions compute XPath arithmetic",
 "Arithmetic operators, idiv, mod, unary operators, abs, ceiling, floor, round, sum, avg, min, max, number give the value and numeric type that the specification prescribes for every operand, including overflow, infinities, NaN and division by zero.",
 "all operand values and types", "Tests sample a few values per operator.", [OP, FN, XI], [("op_numeric_*", OP), ("fn_abs etc.", FN)], ["eval_xpath"])
pure("P03", "String functions handle every Unicode string",
 "concat, substring, string-length, contains, starts-with, ends-with, substring-before/after, translate, normalize-space, upper/lower-case, compare, codepoint functions return the specified result for every string and every position argument, counting characters, never bytes.",
 "all strings and positions", "Tests use short fixed strings.", [FN], [("string functions", FN)], ["eval_xpath"])
pure("P04", "Comparisons, boolean values and logic follow the specification",
 "Value, general and node comparisons, effective boolean value, and/or/not give the specified result or error for every pair of operand sequences.",
 "all operand sequences", "Tests sample pairs.", [XS, OP, EV], [("general_compare_* / value_compare_* / effective_boolean_value", XS)], ["eval_xpath"])
pure("P05", "Variables, for/let/some/every and functions are lexically scoped",
 "A variable reference denotes its innermost enclosing binding; a binding is invisible outside its expression; inline functions, named references, partial application, for-each and filter bind arguments by position.",
 "all nestings of binding expressions", "Tests use one or two levels.", [EV], [("var_vec stack", EV)], ["eval_xpath"])
pure("P06", "Maps and arrays behave as values",
 "Map and array constructors, lookup, map:* and array:* functions return the entries put in, by key equality, with wildcard lookup in a fixed order.",
 "all keys and members", "Tests sample a few maps and arrays.", [XI, FN, EV], [("map and array items", XI)], ["eval_xpath"])
pure("P07", "instance of, castable and cast as agree with each other",
 "For every value and type, 'castable as' is true exactly when 'cast as' succeeds, a successful cast is an instance of the target type, and 'instance of' respects the type hierarchy and occurrence indicators.",
 "all values and sequence types", "Tests sample pairs.", [EV, XS, XI], [("match_sequence_type / castable_as / cast_as", XS)], ["eval_xpath"])
pure("P08", "No XPath string makes evaluation panic",
 "Evaluating any string as an XPath expression returns a value or an error of the right class and never panics.",
 "all strings", "Tests contain a short list of erroneous expressions.", [EV, FN, PA, "src/xpath_impl/lexer.rs"], [("Result propagation", EV)], ["eval_xpath"])
pure("P09", "Tokenisation and entity decoding follow XML",
 "Names, attributes, character data, CDATA sections, comments, processing instructions, directives and predefined or numeric references in any well-formed document are reported as XML 1.0 defines them.",
 "all well-formed documents", "Tests use fifteen strings.", [SAX], [("raw_token / decode_entity", SAX)], ["raw_token"])
pure("P10", "Recursion depth is bounded by something other than the stack",
 "Parsing, serialising, querying, copying and dropping documents of any nesting depth, and evaluating expressions of any nesting depth, does not overflow the stack.",
 "all nesting depths", "Tests nest a handful of levels.", [DOM, EV, PA], [("recursive tree walks", DOM)], ["process survival"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
