"""technique and level note of each check (used by mkmanifest.py)"""
R = "runtime monitoring: "
B = " Held on every execution observed; not a proof for all inputs. See DESIGN.md for the generator's bounds and exclusions."
NOTES = {
 "C01": (R + "round-trip oracle over loads/dumps on enumerated value shapes, generated, mutated and corpus documents",
         "Every (block, keyword, value shape) of the vocabulary is executed, plus random documents, mutants and edits." + B),
 "C02": (R + "reference-model oracle: text rendered from a document tree, loads compared with the documented dictionary",
         "The expected dictionary comes from an independent model, types and order included." + B),
 "C03": (R + "independent tokenizer and reader of the printed text compared with the dictionary, after edit histories",
         "Reader shares no code with mappyfile; lexical class of every value checked." + B),
 "C04": (R + "fixpoint and determinism monitor on dumps/loads over option sets and hash seeds",
         "Byte comparison of repeated formatting." + B),
 "C05": (R + "metamorphic monitor: differently written renderings of one document must load equal",
         "Case, separators, CRLF, comments, quotes, bare words varied at every token boundary." + B),
 "C06": (R + "metamorphic monitor over the formatting-option cross product",
         "Content of loads(dumps(d, options)) compared with the default formatting." + B),
 "C07": (R + "verdict compared with an independent schema evaluator and with injected faults of known place",
         "Evaluator written for this check over the live schemas, and frozen reference of the published ones." + B),
 "C08": (R + "recorded positions compared with the renderer's own positions; error messages with the injected fault's place",
         "Line and column exact for every keyword and block; value positions in source order." + B),
 "C09": (R + "version-annotated entries x versions x parent chains; query histories on one Validator against fresh ones",
         "All annotated entries at both edges of their range in every parent chain." + B),
 "C10": (R + "independent expression parser: tree of the source compared with the tree of the stored string; fixpoint",
         "All operator pairs and triples with and without brackets, random trees, lists, regexes and functions." + B),
 "C11": (R + "exception-type and source-position monitor on hostile inputs, per-input time limits and growth of measured work",
         "Promptness is decided as bounded growth of CPU time when the input is doubled." + B),
 "C12": (R + "deep argument snapshots, reused against fresh workers, threads against sequential calls under injected switching",
         "Distinct interleavings observed are counted in the evidence." + B),
 "C13": (R + "differential monitor of loads and dumps with bookkeeping switched on and off",
         "All four flag combinations per input." + B),
 "C14": (R + "comment conservation and attachment monitor on the printed text",
         "Each comment in the source is unique or counted; attachment checked for the promised places." + B),
 "C15": (R + "include trees written to disk compared with an independently flattened text, with faults (missing, cycles, depth)",
         "Depths 0-7, several working directories and reference spellings." + B),
 "C16": (R + "layout monitor over the lines of the printed text",
         "Every line of every printed text is judged." + B),
 "C17": (R + "reference-model monitor: operation histories on the dict classes against a plain ordered dict with folded keys",
         "Every return value and exception type is compared after each operation." + B),
 "C18": (R + "reference implementations of the laws compared with update and find* on generated arguments",
         "Arguments' state after the call compared too." + B),
 "C19": (R + "exhaustive enumeration of the vocabulary (live and frozen schemas) executed through parse, print, validate, create",
         "Every block, keyword and value alternative is executed in every position." + B),
 "C20": (R + "file, stream and command-line front ends run as processes and compared with the string API",
         "Exit status, stdout, files and bytes written are compared." + B),
}
