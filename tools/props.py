import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
T="The 18 unit tests call the tokenizer, the parser, the index and two helpers on a handful of fixed ASCII inputs; "
p("C01","The server survives every input and answers every request exactly once",
 "Whatever text a document contains and whatever protocol-conformant request a client sends (any position, any new name, any command arguments, any code-action payload, unknown documents included), the server never crashes, exits, hangs or stops responding. Every request gets exactly one reply, a result or an error, and the server keeps serving all documents afterwards.",
 ["inputs","histories"],"for all document texts, all requests and arguments, and all sequences of them",
 T+"no test sends a request, and none tries malformed, non-ASCII or stale input, although a panic in any handler takes the whole process down.",
 ["src/main.rs","src/hir_tokenizer.rs","src/hir_parser.rs","src/hir_index.rs","src/rename.rs","src/backtrace.rs","src/lsp_utils.rs"],
 [("request handlers return null or an error instead of panicking","src/main.rs impl LanguageServer for Backend"),("error recovery","src/hir_tokenizer.rs tokenizer, src/hir_parser.rs parser")],
 ["JSON-RPC replies on stdout","liveness of the server process"])
p("C02","Answers reflect exactly the latest text of the document asked about",
 "After any history of opening, changing, re-opening and closing documents, every answer about a document and the diagnostics last published for it (with the version they carry) are those a fresh server would give for that document's most recent text alone. A change notification with several content changes leaves the last of them in effect, and nothing done to one document affects the answers for another.",
 ["histories"],"for all sequences of open/change/close/query operations over several documents and texts",
 T+"no test holds a document across edits or has two documents, so stale or shared state is invisible to them.",
 ["src/main.rs"],[("on_change re-analyses the full text and replaces the entry of that URI","src/main.rs on_change / document_map")],
 ["textDocument/* replies","textDocument/publishDiagnostics"],
 [("document_map","analysed state per URI","src/main.rs Backend")])
p("C03","Positions and ranges are exact in LSP coordinates for any text",
 "Every range the server returns delimits exactly the symbol it stands for, in zero-based lines (separated by LF, CRLF or CR) and UTF-16 columns, also when the text contains multi-byte or astral characters, CRLF line ends or unusual separators. Conversely a cursor anywhere inside a symbol (from its first character up to, but not after, its last) finds that symbol, and a cursor beyond the end of its line or of the document never finds a symbol of another line.",
 ["inputs"],"for all document texts and all cursor positions",
 T+"all test inputs are ASCII with LF line ends, and the coordinate conversion itself has no test.",
 ["src/lsp_utils.rs","src/hir_index.rs","src/main.rs"],[("offset/position conversion","src/lsp_utils.rs"),("lookup of the symbol under the cursor","src/hir_index.rs find_symbol_at_position")],
 ["textDocument/prepareRename","textDocument/definition origin ranges","textDocument/documentSymbol","textDocument/publishDiagnostics ranges"])
p("C04","Syntax highlighting classifies every character correctly",
 "The semantic tokens of a document, decoded per the protocol, are in document order, never overlap, stay within one line each, and colour exactly the comments, numbers, strings, local and global names, types, the keywords declare/define and the function modifiers with their legend class, leaving everything else uncoloured. This holds for every text, including text with stray characters elsewhere.",
 ["inputs"],"for all document texts",
 T+"no test calls the semantic-token code; the tokenizer test checks token kinds of about 20 short inputs and no spans.",
 ["src/semantic_token.rs","src/hir_tokenizer.rs","src/main.rs"],[("token classification","src/semantic_token.rs semantic_tokens_from_tokens"),("relative encoding","src/semantic_token.rs convert_to_lsp_tokens"),("tokenizer","src/hir_tokenizer.rs")],
 ["textDocument/semanticTokens/full","legend in the initialize result"])
p("C05","Go to definition/declaration finds exactly the definitions in scope",
 "From every occurrence of a symbol, go-to-definition returns exactly the places where that symbol is defined and go-to-declaration exactly the places where it is declared: global variables, functions and debug references module-wide, local variables, parameters and labels within their own function only. Names are matched as a whole, and an undefined symbol yields no target.",
 ["inputs","programs"],"for all well-formed modules and all symbol occurrences in them",
 T+"one test compares the index of a single module with one function, so scoping across functions, repeated names and cursor-driven lookups are never exercised.",
 ["src/hir_index.rs","src/main.rs","src/hir_parser.rs"],[("index of definitions, declarations and uses","src/hir_index.rs create_index"),("get_use_def_ranges","src/main.rs")],
 ["textDocument/definition","textDocument/declaration"],
 [("global_vars, functions, dgb_annotations, function_bodies","definitions/uses by name and scope","src/hir_index.rs HIRIndex")])
p("C06","Find references returns every use and nothing else",
 "From every occurrence of a symbol (use, definition or declaration), find-references returns each use of that symbol exactly once, for all symbol kinds, wherever uses may occur (instructions, branch targets, phi inputs, global initialisers, dependency lists, debug references). It never returns an occurrence of a different symbol: of another kind, of another function's scope, or one whose name merely overlaps.",
 ["inputs","programs"],"for all well-formed modules and all symbol occurrences in them",
 T+"the index test has one function and few uses; missing or duplicated uses in other syntactic places would go unnoticed.",
 ["src/hir_index.rs","src/hir_parser.rs","src/main.rs"],[("use collection from parse tree and token stream","src/hir_index.rs create_index"),("branch target extraction","src/hir_parser.rs")],
 ["textDocument/references"])
p("C07","Proxied functions lead to their source location inside the workspace",
 "For a declared function whose debug reference names `path:line`, go-to-definition additionally returns that source line (zero-based) in the first workspace root in which the file exists, wherever in the module the annotation stands and however many functions share it. It returns no external location when the file does not exist in any root or the annotation is not of that form, and never a location outside the roots.",
 ["inputs","configurations"],"for all declarations, annotation texts, workspace configurations and file system contents",
 T+"the index test stores one path/line pair; resolution against roots and the file system is never run.",
 ["src/hir_index.rs","src/backtrace.rs","src/main.rs"],[("external_defs","src/hir_index.rs create_index"),("resolve_relative_path","src/backtrace.rs"),("get_use_def_ranges","src/main.rs")],
 ["textDocument/definition"])
p("C08","Semantic diagnostics are exactly the undefined, duplicate and unclear ones",
 "For a syntactically well-formed module the published diagnostics are exactly: one at every use of a symbol that is neither defined nor declared, one at every definition of a symbol after its first in the same scope (pointing back to the first), and one at every branching or phi instruction whose targets cannot be extracted. Nothing else is reported, so a consistent module has no diagnostics.",
 ["inputs","programs"],"for all well-formed modules",
 T+"no test calls the diagnostics code.",
 ["src/diagnostics.rs","src/hir_index.rs","src/main.rs"],[("diagnostics_from_index","src/diagnostics.rs"),("diagnostics_from_statements","src/diagnostics.rs")],
 ["textDocument/publishDiagnostics"])
p("C09","Syntax errors are reported iff present and stay local",
 "A module that follows the Hyper IR grammar (blank and comment-only modules included) gets no syntax diagnostic, and any other text gets at least one. A malformed line between, before or after well-formed top-level statements does not hide those statements from outline, navigation and highlighting.",
 ["inputs"],"for all token sequences and all placements of a malformed line",
 T+"acceptance is tested on a dozen texts and recovery on a single bad line in the middle of a file.",
 ["src/hir_parser.rs","src/hir_tokenizer.rs","src/diagnostics.rs"],[("grammar and recovery","src/hir_parser.rs parser"),("tokenizer recovery","src/hir_tokenizer.rs"),("diagnostics_from_parser","src/diagnostics.rs")],
 ["textDocument/publishDiagnostics","textDocument/documentSymbol"])
p("C10","Rename changes exactly one symbol and preserves the module's structure",
 "A rename to a fresh valid name yields edits that, applied to the document, replace every occurrence of the symbol under the cursor and not a single other character, so that the resulting module is identical up to that name. The kind's sigil may be given or omitted, and a new name that would not lex as one identifier of that kind (empty, wrong characters, leading digit, trailing colon, keyword) is refused with an error.",
 ["inputs","programs"],"for all modules, all symbol occurrences and all new names",
 T+"no test performs a rename.",
 ["src/rename.rs","src/main.rs","src/hir_index.rs"],[("rename handler","src/main.rs rename"),("get_rename_edits","src/rename.rs")],
 ["textDocument/rename workspace edits"])
p("C11","Relative rename shifts all following numbers of the same kind and scope",
 "A relative rename `+k`/`-k` on a numbered symbol adds k to the number of exactly those symbols of the same kind and scope whose number is at least that of the symbol under the cursor, in all their occurrences, leaving prefixes, other kinds, other functions and smaller numbers untouched. A shift that cannot be carried out (no trailing number, number below zero or out of range, no amount) is refused as a whole with an error, and `+k` followed by `-k` restores the text.",
 ["inputs","histories"],"for all modules, symbols and amounts (numbers in canonical decimal form)",
 T+"only the extraction of a trailing number is tested, on eight names.",
 ["src/rename.rs","src/main.rs"],[("get_shift_edits","src/rename.rs"),("relative rename parsing","src/main.rs rename")],
 ["textDocument/rename workspace edits"])
p("C12","The shift code action equals a relative rename by one, lazy or eager",
 "The numbering code action is offered exactly when the cursor (an empty selection) is on a numbered symbol, and its edit is that of the relative rename `+1` at the same place; resolved lazily it gives the same edit against the document's current text as an eager server computes at once. The edit is included up front exactly for clients that cannot resolve it lazily, and resolving an action that no longer fits the current text or is malformed gives an answer, never a failure of the server.",
 ["inputs","histories","configurations"],"for all client capability combinations, documents, cursor positions, and edits between offering and resolving",
 T+"no test touches code actions.",
 ["src/main.rs","src/rename.rs"],[("code_action / do_code_action_resolve","src/main.rs"),("capability negotiation","src/main.rs initialize")],
 ["textDocument/codeAction","codeAction/resolve"],
 [("code_actions_lazy_resolve","negotiated mode","src/main.rs Backend")])
p("C13","The control-flow graph shows exactly the function's branch edges",
 "Visualizing a function sends the client one graph, titled with that function, whose edges are exactly the pairs (labelled block, target label) given by the branch instructions of that function: unconditional, conditional, overflow-checking and switch branches, all targets of each. Edges of other functions, phi inputs and operands never appear, and an unknown function, document or command is answered with an error and no graph.",
 ["inputs","programs"],"for all well-formed functions",
 T+"no test renders a graph; branch target extraction is tested for one instruction of each form.",
 ["src/control_flow_graph.rs","src/hir_parser.rs","src/main.rs"],[("create_cfg_dot_visualization","src/control_flow_graph.rs"),("branch instruction parsers","src/hir_parser.rs"),("execute_command","src/main.rs")],
 ["hyperir/showDot request","workspace/executeCommand reply"])
p("C14","Incoming-edge hints are the exact inverse of the control-flow edges",
 "Each labelled block with predecessors carries one inlay hint, right after its label's colon, listing every labelled block that branches to it exactly once, each linked to that block's label; blocks without predecessors carry none. Each function's closing brace is followed by a hint naming the function and linking to its name in the definition.",
 ["inputs","programs"],"for all well-formed functions with distinct labels",
 T+"one test checks the predecessor lists of one function; hints themselves are never requested.",
 ["src/hir_index.rs","src/main.rs"],[("incoming_bb_branches","src/hir_index.rs create_index"),("inlay_hint","src/main.rs")],
 ["textDocument/inlayHint"],[("incoming_bb_branches","predecessors by label","src/hir_index.rs FunctionBody")])
p("C15","Every instruction's backtrace is shown faithfully and safely",
 "Each instruction whose debug reference has an annotation with a backtrace gets one hint at the end of that reference, whose tooltip lists all frames in order (symbol, file name and line, linked iff the file exists in a workspace root) and whose label names the most relevant frame: the first of the most preferred translator function present, else the first frame with a file outside the code-generation folders, else none. Symbol text of any kind (long, empty, non-ASCII, with Markdown characters) is shown without breaking out of its code span, and annotations of another shape give no hint.",
 ["inputs","configurations"],"for all annotation contents, frame lists and workspace configurations",
 T+"five tests parse single frames without workspace roots; relevance, sanitising, linking and the hint itself are untested.",
 ["src/backtrace.rs","src/main.rs","src/hir_index.rs"],[("parse_backtrace_from_json, identify_relevant_frames, sanitize_markdown_code","src/backtrace.rs"),("inlay_hint","src/main.rs")],
 ["textDocument/inlayHint"])
p("C16","Outline, folding and code lenses mirror the module's structure",
 "The outline lists exactly the global variable definitions and function definitions, each with its name's range as selection inside its full range; folding ranges cover exactly each function definition (from its define line to its closing brace) and each basic block (from its label, or first instruction, to its last instruction). A control-flow lens is offered on exactly the names of functions with a single definition, and its command, when executed, shows that function's graph.",
 ["inputs","programs"],"for all well-formed modules",
 T+"none of these three handlers is called by a test.",
 ["src/main.rs","src/hir_index.rs","src/hir_parser.rs"],[("document_symbol, folding_range, code_lens","src/main.rs"),("function_bodies","src/hir_index.rs")],
 ["textDocument/documentSymbol","textDocument/foldingRange","textDocument/codeLens"])
p("C17","Overlapping messages behave as if handled in arrival order, without deadlock",
 "However messages overlap in time - requests and edits arriving back to back, a slow or blocked output stream, a graph request the client has not answered yet - every request is answered as if all messages had been processed one at a time in arrival order, diagnostics of a document are published in order so that the last published ones belong to its latest text, and the server never deadlocks. In particular an unanswered graph request delays no other work, and its command completes once the client replies or reports an error.",
 ["schedules"],"for all interleavings of message arrival, server progress, output back-pressure and client replies",
 T+"no test starts the server, so no interleaving is ever exercised.",
 ["src/main.rs"],[("handlers update the document before their first suspension point","src/main.rs on_change"),("no document lock held across a suspension point","src/main.rs execute_command")],
 ["order and content of messages on stdout"],[("document_map","shared by all in-flight handlers","src/main.rs Backend")])
p("C18","All cursor-driven features agree on what is a symbol and what it is",
 "At every cursor position, prepare-rename, rename, go-to-definition, go-to-declaration and find-references all succeed or all find nothing, and when they succeed they speak about one and the same symbol: the prepared range equals the origin range of the links, and rename edits cover exactly the union of definitions in the document, declarations and references, including the prepared range itself.",
 ["inputs"],"for all document texts, malformed ones included, and all cursor positions",
 T+"no test calls any of these handlers.",
 ["src/main.rs","src/hir_index.rs","src/rename.rs"],[("shared symbol lookup","src/hir_index.rs find_symbol_at_position"),("add_internal keeps forward and reverse index in step","src/hir_index.rs")],
 ["textDocument/prepareRename","textDocument/rename","textDocument/definition","textDocument/declaration","textDocument/references"],
 [("reverse_idx","position to symbol occurrence","src/hir_index.rs HIRIndex")])
p("C19","Negotiation follows what the client announces",
 "For every combination of client capabilities and workspace description, initialization succeeds, full-text synchronisation is announced, the same full set of features is advertised to every client, every advertised feature and command is actually served, and lazy code-action resolution is announced and used exactly when the client supports both resolving `edit` and preserving `data`. Workspace roots are the workspace folders if given, else the root URI, of whatever URI scheme, without preventing any feature from working.",
 ["configurations"],"for all initialize parameter combinations",
 T+"no test calls initialize.",
 ["src/main.rs","src/backtrace.rs"],[("initialize","src/main.rs"),("resolve_relative_path","src/backtrace.rs")],
 ["initialize result","later replies"],[("root_paths, code_actions_lazy_resolve","negotiated configuration","src/main.rs Backend")])
p("C20","The VS Code client shows every graph and always answers the server",
 "Whatever the editor's commands do (succeed, fail, or be missing), the extension shows each graph the server sends in the preview extension or, failing that, in a text editor with exactly the sent source, reports a request without graph source to the user, and answers every request exactly once: with an empty object, or with an error if even the fallback failed. It starts the configured server binary once on activation for Hyper IR documents, and deactivation stops it, and is safe before and after activation.",
 ["fault_sequences","configurations"],"for all outcomes of each editor API call and all lifecycle sequences",
 "The repository has no test for the TypeScript extension at all.",
 ["vscode-extension/src/extension.ts"],[("showDot request handler with fallback","vscode-extension/src/extension.ts activate"),("deactivate","vscode-extension/src/extension.ts")],
 ["calls into the vscode and language-client APIs"],[("client","language client of this activation","vscode-extension/src/extension.ts")])
p("C21","The server follows the protocol's lifecycle and ends with its client",
 "In every history of a session: requests sent before initialize succeeded or after shutdown are refused with an error, and notifications then have no effect; only the first initialize is accepted and a later one changes nothing that was negotiated; an initialized server always answers shutdown with success, whatever documents are open and whatever is under way, and still completes what is under way; an unknown request is refused without further effect. When the client closes the connection, at any byte of its stream and at any point of the processing, every request received in full has been answered and the server ends. No message makes it end earlier than exit or the end of the connection.",
 ["histories","crash_points"],"for all message histories and all points at which the connection can end",
 "no test starts the server; the lifecycle is only seen over whole sessions and at points where a client disappears.",
 ["src/main.rs"],[("initialize, initialized, shutdown handlers","src/main.rs LanguageServer for Backend"),("main: runtime and serve","src/main.rs main")],
 ["all requests and notifications","end of the process"],[("root_paths, code_actions_lazy_resolve, document_map","state set by initialize and by notifications","src/main.rs Backend")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s); assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
