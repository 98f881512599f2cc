"""Writes rules.json and MANIFEST.json (run by hand when the descriptions change)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = {}
def p(id, technique, rule, note, *assume):
    R[id] = dict(technique=technique, rule=rule, note=note, assumptions=list(assume))

COMMON = "Hypothesis draws from seeded generators; exploration is finite, so absence of a violation is evidence, not proof."
p("C01", "property-based testing: generated trees, strict HTML tokenizer as inverse of rendering",
  "the tree has at least two elements, or one with attributes or children (distinct by canonical JSON of the case)",
  "Every catalogue element and random trees are rendered with generated indent/eol; an independent strict tokenizer (parse errors and ambiguities rejected) must give back exactly the element tree, attributes (decoded) and text.",
  "the tokenizer in vfw/htmltok.py implements the HTML standard's data/tag/attribute states for ordinary elements", "element catalogue frozen from scripts/generate_tags.py of the pinned tree")
p("C02", "property-based testing: exhaustive code points and short strings, random strings x placements, per-character reference escape",
  "the placed text (or block of code points) contains at least one of & < >",
  "All 1.1M code points and all short strings over the metacharacters are escaped exactly as the reference; random strings are placed in every way children can be added, at every depth, and located exactly in the output.",
  "surrogate code points are not text (they cannot be encoded)")
p("C03", "property-based testing: exhaustive code points and short strings, random supply programs, per-character reference escape",
  "a plain value contains one of & < > \" ' CR LF, a block of code points is compared, or a number/boolean supply is compared",
  "As C02 for attribute values, over every way to supply or merge a value (constructor, dicts, keyword, update, assignment, add_class/add_style, consolidate_attrs, document arguments), with HTML() parts merged in.",
  "HTML() parts are the caller's responsibility and only checked to be verbatim")
p("C04", "property-based testing: expression trees of +, += against a piece model; placements located verbatim",
  "the trusted markup contains a markup character, a sum mixes plain and trusted operands with at least 3 leaves, or an attribute is combined from several sources",
  "Markup in every position is found byte for byte; all small and many random sums of str, HTML and TagList render as the concatenation of their operands, each escaped exactly once.",
  "a lone plain + plain sum never reaches the library")
p("C05", "property-based testing: exhaustive sibling patterns and random trees against a piece sequence with allowed white space positions",
  "at least 3 pieces with two adjacent inline ones, or a sibling pattern of length >= 2, or a tag function's own default",
  "The output is matched against the exact pieces; white space may appear only where a block tag (or its children boundary) permits it.",
  "text leaves do not start or end with white space in the matching check, so injected white space is visible")
p("C06", "property-based testing: exhaustive sibling patterns and random trees against an independent line-layout model",
  "the tree has a block tag and at least two lines",
  "Exact string equality with an independently written layout model, for generated indent and eol, over trees where inline tags contain no block tags.",
  "the model encodes the rules as stated in the property (vfw/oracle.py)")
p("C07", "metamorphic property-based testing: insert metadata at all positions, same markup",
  "at least one metadata node inserted into a tree with a tag",
  "Inserting MetadataNode/HTMLDependency objects (also through tagifiable objects, lists, contexts) at all or random positions leaves every rendering unchanged; the dependency list is the one expected from the spec.")
p("C08", "stateful property-based testing: snapshots around random operation sequences; aliasing and equality models",
  "at least two operations on a tree with dependencies or tagifiable objects, at least one mutation of two or more tags, or an edited non-empty tree",
  "Deep snapshots of everything reachable around random sequences of the read-only operations; results of repeated operations equal; object identity sets of original and tagify() copies disjoint and mutations invisible; == against a structural model.",
  "equality between HTML('x') and 'x' is not pinned (str vs. UserString comparison is ambiguous in the statement)", "state compared is the public state of the objects")
p("C09", "metamorphic property-based testing: tagifiable objects against their expansion substituted in the spec",
  "the tree has at least one tagifiable object",
  "render(), HTMLDocument.render() and tagify() of a tree with tagifiable objects at any positions equal those of the tree with the expansions substituted; an unexpanded one must raise, never print.",
  "tagify() results respect the documented contract (fully tagified)")
p("C10", "property-based testing: reference resolver with independent version comparison; must-raise table of invalid definitions",
  "two dependencies share a name, a sequence has more than one dependency, or an invalid definition is tried",
  "Generated multisets of dependencies in generated trees resolve exactly as the reference resolver says; every field of a definition is tried with invalid shapes, each of which must be rejected when constructed.",
  "version order is PEP 440 (checked against an independent comparison)")
p("C11", "property-based testing: documents against a reference document and a strict tokenizer",
  "the content has dependencies, or is the user's own html/body/head",
  "For all combinations of content shapes, html attributes, dependencies and lib prefixes, the document is compared with a reference document and tokenized to count html/head/body and locate every hoisted element.",
  "content with two <head> children in the user's own <html> is outside the statement")
p("C12", "property-based testing with a real scratch file system and injected missing files",
  "at least one URL was compared with a file, or a file was missing",
  "Documents and dependencies are saved into scratch directories in generated prior states; every URL in the page must name a file with the source's bytes, nothing else may appear or vanish, and a missing file must raise before the destination changes.",
  "dependency names and libdirs containing % # ? / are excluded (they are not encoded by design)", "files are written in the platform's default encoding")
p("C13", "property-based testing: serialise/recover round trip; text model of extraction and placeholder replacement",
  "hostile characters in an embedded dependency, at least one recovered dependency with surrounding text, or a JSON-mode rendering with dependencies",
  "Dependencies with hostile strings are serialised, embedded in generated text, recovered, and compared field by field; the remaining text must be the text without the scripts, with the placeholder replaced as the model says.",
  "source packages are importable packages without data outside the statement")
p("C14", "stateful property-based testing: child-list histories against a list model",
  "at least two operations of which at least one adds a non-trivial value",
  "Random histories (constructor, append, extend, insert, +, reflected +, +=, slicing, repetition, item assignment ...) on TagLists and Tags follow a plain-list model; only normalised node types are stored; rejected values leave the list unchanged.",
  "direct item assignment is outside the statement and only used to read")
p("C15", "property-based testing: argument lists and updates against an ordered-map model; exhaustive pairs and triples",
  "two names collide after normalisation, or a value needs conversion",
  "All ordered pairs/triples of representative values under colliding names, and random argument lists followed by update/assignment histories, equal an independent ordered-map model in order, value and type.",
  "TagAttrDict |= and setdefault are outside the statement's quantifier")
p("C16", "stateful property-based testing: class/style histories against a token-list model; css() against a declaration model",
  "at least two operations including a change, or a css() call that keeps a declaration and drops or renames one",
  "Random and all short histories of add_class/remove_class/has_class/add_style follow a token model; css() is compared with a declaration model.",
  "css values other than strings and numbers are outside the statement")
p("C17", "stateful property-based testing with injected exceptions: with-block programs against a reference interpreter of the hook chain",
  "at least two with-blocks, nested or with an exception, an invalid value or a re-entry",
  "Random programs of nested with-blocks, displayed values, exceptions, invalid values and re-entries run under a recording display hook; hook identity, children and errors must follow the reference interpreter.",
  "re-entering a finished tag is unspecified")
p("C18", "property-based testing across processes: batteries replayed in forked fresh interpreters with different hash seeds, orders and noise",
  "at least two items with noise or repetition, or at least two distinct heads of which two are equal",
  "The same constructions in fresh interpreters (different hash seeds, locale, time zone, cwd), in different orders, interleaved with unrelated work and failures, give byte-identical output; head_content names are equal exactly for equal content.",
  "fresh interpreters are forks of a process that has imported the library and done nothing else")
p("C19", "property-based testing: all functions x fixed and generated argument lists against the Tag constructor and a frozen table",
  "the call passes arguments, or a non-boolean _add_ws is tried",
  "Every function of htmltools.tags, htmltools.svg and every top-level shortcut is called with fixed and generated arguments and compared with Tag(name, ..., _add_ws=documented default).",
  "the inline classification is the one in scripts/generate_tags.py of the pinned tree")
p("C20", "stateful property-based testing: emitted JavaScript parsed and executed by node.js against a component model; deep snapshots; metadata sets",
  "at least one checked conversion of a component with metadata, tagifiable objects or nested components, or an allow-list with props",
  "Random component trees and histories of conversions and changes; the script is parsed (acorn) and executed (vm with stand-ins for React) and must mirror the model; everything reachable is unchanged by identity and value; metadata nodes are exactly those of the model.",
  "HTML() and self-rendering objects inside components are outside the statement", "how a metadata node given directly as a prop value reads in JavaScript is unspecified", "node.js and acorn are installed")

json.dump({k: {"rule": v["rule"], "assumptions": v["assumptions"] + [COMMON]} for k, v in R.items()}, open(os.path.join(HERE, "data", "rules.json"), "w"), indent=1)
json.dump({
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": [{"property": k, "quick_cmd": f"./check {k} quick", "thorough_cmd": f"./check {k} thorough", "evidence_file": f"evidence/{k}.json",
                "technique": v["technique"], "level": "exploration", "level_note": v["note"] + " " + COMMON} for k, v in R.items()],
    "not_applicable": [],
    "notes": "No hooks in /repo. Checks import htmltools from /repo's working tree in unprivileged worker processes; see DESIGN.md.",
}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
