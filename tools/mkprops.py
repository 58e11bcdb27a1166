#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the properties are worded)."""
import json, os

P = []

def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text),
        why_tests_cant=why,
        anchors=dict(
            files=['src/disseminate/' + f for f in files],
            state=[dict(name=n, meaning=m, where='src/disseminate/' + w) for n, m, w in state],
            mechanism=[dict(name=n, where='src/disseminate/' + w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))

prop('C01', 'An incremental build gives the same files as a clean build',
     "After any history of edits to a project (document text, headers, titles, labels, include lists, "
     "referenced images and style sheets, deleted or damaged outputs), running the build again, in the same "
     "process or in a new one over the same output directory, leaves every current target file with exactly the "
     "content that a clean build of the present sources into an empty directory gives.",
     ['histories', 'inputs'],
     "All edit histories up to a depth over a two/three document project, for the html, tex, xhtml and txt "
     "targets, with and without a process restart between builds.",
     "Tests do one or two hand-picked edits of a single document; whether a cached decision, a stale label, a "
     "stale parsed document or a shared builder survives an edit depends on the order of edits.",
     ['builders/target_builders/target_builder.py', 'builders/jinja_render.py', 'builders/deciders/md5decider.py',
      'builders/environment.py', 'document/document.py', 'label_manager/label_manager.py'],
     [('content-hash decisions', 'builders/deciders/md5decider.py'),
      ('document reload on modification times', 'document/document.py'),
      ('label dependencies of targets', 'builders/target_builders/receivers.py')],
     [('decision cache', 'hash of inputs -> hash of output of the last build', 'builders/deciders/md5decider.py'),
      ('document context and labels', 'parsed state kept between builds', 'document/document_context.py')],
     ['files under the target root'])

prop('C02', 'A build with nothing to do does nothing',
     "Directly after a build that completed successfully, with no change to any input or output, the project "
     "reports that no build is needed and a further build reports 'done', starts no external command and rewrites "
     "no file; this holds for the same process and for a new process that uses the same output directory.",
     ['histories', 'configurations'],
     "All target sets of a project crossed with edit histories ending in a completed build, same process and restarted.",
     "Tests check it for single builders right after construction, not for the whole tree of builders after "
     "histories and restarts.",
     ['builders/builder.py', 'builders/composite_builders/composite_builder.py', 'builders/deciders/md5decider.py',
      'builders/jinja_render.py', 'builders/copy.py', 'builders/environment.py'],
     [('build_needed / status', 'builders/builder.py'), ('decision stored after success', 'builders/deciders/md5decider.py')],
     observe=['builder statuses', 'files written', 'commands started'])

prop('C03', 'Up-to-date decisions are exact over every history',
     "A build step is reported as up to date only if its output exists with the content left by the last "
     "successful build that used the same command, the same options and the same contents of each input as now (lines of "
     "metadata in pdf files aside); whenever that holds it is reported as up to date, also after a restart. Missing inputs or outputs always "
     "mean that a build is needed, asking for a decision never changes one, a failed command is never recorded as a "
     "build, and driving a step that is not up to date runs its command again, however often it ran before.",
     ['histories', 'fault_sequences'],
     "All histories up to a depth of: change/revert/swap/remove an input, change/remove/damage the output, change "
     "an argument, build, restart, query.",
     "Tests sample a couple of single changes; revert-to-an-older-content, swapping contents between inputs and "
     "damage after restart are only reached by enumerating histories.",
     ['builders/deciders/decider.py', 'builders/deciders/md5decider.py', 'builders/deciders/utils_hash.py'],
     [('hash of inputs and output', 'builders/deciders/utils_hash.py'),
      ('persistent decision store', 'builders/deciders/md5decider.py')])

prop('C04', 'Composite builds run in order, to the end, and report failures',
     "For every order in which started commands finish and every command that fails, a sequential build never "
     "starts a step before the preceding steps succeeded, a parallel build starts all of its steps that can run before any of them has finished, and "
     "repeatedly driving the build terminates. It reports 'done' only when every step has succeeded and produced "
     "its output file, and a failed command is reported as an error, never as success.",
     ['schedules', 'fault_sequences'],
     "All completion orders and all failure/missing-output assignments of builder trees (sequential, parallel, "
     "nested) up to a size, blocking and polling drivers.",
     "Tests run real commands, whose completion order cannot be controlled, and only on the success path.",
     ['builders/builder.py', 'builders/executor.py', 'builders/composite_builders/composite_builder.py',
      'builders/composite_builders/sequential_builder.py', 'builders/composite_builders/parallel_builder.py'],
     [('status state machine', 'builders/builder.py'), ('run_build_once', 'builders/composite_builders/composite_builder.py')])

prop('C05', 'A build killed at any point is repaired by the next build',
     "If the process dies at any point of a build (between or in the middle of writing, copying or creating any "
     "output, intermediate or cache file), the next build in a new process completes and leaves every target file "
     "with the content a clean build gives; a torn or half-written output is never taken as up to date.",
     ['crash_points', 'histories'],
     "Every file-system effect of an initial and of an incremental build as a crash point, with the torn file "
     "empty, half-written or complete.",
     "No test interrupts a build.",
     ['builders/jinja_render.py', 'builders/copy.py', 'builders/save_temp.py', 'builders/deciders/md5decider.py',
      'utils/file.py', 'builders/environment.py'],
     [('decision recorded only after the output is complete', 'builders/jinja_render.py')])

prop('C06', 'Steps running at the same time never use a file being written',
     "While a project is built in parallel, no command that is running reads or writes a file that another "
     "running step is producing, in any order in which the commands progress and finish; documents or tags that "
     "need the same intermediate file (the same equation or image) all get the complete file.",
     ['schedules'],
     "All completion orders of the commands for projects in which 2-3 tags need the same intermediate file.",
     "The tests are pinned to one CPU because this very race made them unreliable.",
     ['builders/builder.py', 'builders/composite_builders/composite_builder.py',
      'builders/composite_builders/parallel_builder.py', 'builders/executor.py'],
     [('future per builder', 'builders/builder.py'), ('run_build_once', 'builders/composite_builders/composite_builder.py')])

prop('C07', 'The document tree is the include graph, each document once',
     "For every include graph (self-includes, cycles, repeated and shared includes, nested directories) and after "
     "every history of edits to include lists, loading terminates and the project holds each reachable document "
     "exactly once, in the depth-first order of the includes, under the document that included it first; the tree "
     "after reloading equals the tree of a fresh load, and dropped documents and their labels disappear.",
     ['inputs', 'histories'],
     "All include graphs over 3 documents (4 in the thorough tier, ordered include lists) and all pairs/histories of graphs.",
     "Tests have a handful of fixed trees and one or two edits.",
     ['document/document.py', 'document/receivers/__init__.py', 'document/document_context.py'],
     [('load_subdocuments', 'document/document.py')],
     [('subdocuments', 'ordered map of included documents', 'document/document.py')])

prop('C08', 'Label numbers follow document order and reset rules after any edit',
     "At all times each label (document, part, chapter, section, figure, table, ...) is registered exactly once "
     "in document order, carries the number given by counting labels of its kind since the last reset by a "
     "higher-level label, and carries the numbers of the part, chapter and sections enclosing it; after any "
     "history of edits this equals a fresh load. Two labels with one identifier in one document are refused, and "
     "an identifier is found exactly when such a label exists.",
     ['histories', 'inputs'],
     "All sequences of label-creating tags up to a length spread over up to three documents, and all single/double edits of them.",
     "Tests use fixed short sequences; stale counters or stale enclosing-chapter numbers need an edit in another document.",
     ['label_manager/label_manager.py', 'label_manager/receivers.py', 'label_manager/register_orders.py',
      'label_manager/register_content_labels.py', 'utils/classes.py'],
     [('register_orders / register_content_labels', 'label_manager/receivers.py'), ('label_resets', 'settings.py')],
     [('labels', 'ordered labels of the project', 'label_manager/label_manager.py')])

prop('C09', 'References point at the labelled place, in every target format',
     "Every reference to an existing label renders in every target format of the document, shows the text "
     "configured for that kind of label with that label's own title and numbers, and links to the file of the "
     "document owning the label at the label's anchor, which is present there exactly once; a reference to an "
     "unknown label is an error, never a wrong link.",
     ['inputs', 'configurations'],
     "All (referring document, label kind, owning document, target, directory layout, link style) combinations of a bounded project.",
     "Tests sample html and tex for a few kinds; txt output and nested directories with all kinds are not covered.",
     ['tags/ref.py', 'label_manager/label_manager.py', 'tags/label.py', 'tags/headings.py', 'tags/caption.py', 'paths/paths.py'],
     [('Ref.url', 'tags/ref.py'), ('get_label', 'label_manager/label_manager.py'), ('relative urls', 'paths/paths.py')])

prop('C10', 'Documents inherit context values without sharing or leaking them',
     "A sub-document sees every inheritable value of its parent (entries marked as not inheritable excepted) "
     "merged with its own header by the documented rules for its type; no change made in a document, at any depth "
     "of a nested value, is ever visible in its parent or siblings. Reloading a document restores exactly the values that a "
     "first load of the present files gives, with nothing left over from earlier headers.",
     ['inputs', 'histories'],
     "All pairs of typed parent/child values from a small alphabet, nested to depth 2, and all reset/match_update/"
     "mutate sequences up to a length over a chain of contexts.",
     "Tests check a few keys and one level of nesting.",
     ['context/context.py', 'document/document_context.py', 'context/utils.py'],
     [('copying inheritance', 'context/context.py'), ('match_update', 'context/context.py')])

prop('C11', 'Headers are read exactly as written',
     "For every document, the header is exactly the block between an opening and a closing line of three or more "
     "hyphens at the start of the file, the body is everything after it unchanged, and every entry of the header "
     "is available under its name with the value written (single, multi-line and nested entries, quotes only "
     "stripped at the ends); a file without such a block is all body.",
     ['inputs'],
     "All header texts composed of up to a number of line shapes from a small alphabet, and all dicts up to a size, round-tripped.",
     "Tests have a few hand-written headers.",
     ['context/utils.py', 'utils/string.py', 'context/context.py'],
     [('load_from_string', 'context/utils.py'), ('str_to_dict', 'utils/string.py')])

prop('C12', 'Parsing tags keeps all text, nesting and attributes',
     "For every text, parsing yields the tree of tags that the braces and brackets spell out: each tag with its "
     "name, its attributes and its content, nested as written, and all text outside tags unchanged and in order. "
     "Text without complete tags passes through untouched, and a tag whose brace is never closed or that nests "
     "too deep is reported as an error instead of being dropped.",
     ['inputs'],
     "All strings up to a length over the syntax alphabet (@, names, braces, brackets, text, newline) and all tag "
     "trees up to a size, round-tripped.",
     "Tests parse a few hand-written documents; unusual adjacency, empty content, stray braces and deep nesting need enumeration.",
     ['tags/tag.py', 'tags/receivers/content.py', 'tags/utils.py'],
     [('process_content', 'tags/receivers/content.py'), ('TagFactory', 'tags/tag.py')])

prop('C13', 'HTML and XHTML output is well formed and never turns text into markup',
     "For every document text, the rendered html and xhtml is well formed with properly nested elements, uses "
     "only the allowed elements and attributes, and its text content is the author's text in order; characters "
     "special to html in text, attribute values, code, titles or file names are escaped exactly once, so no text "
     "can introduce elements, attributes or scripts.",
     ['inputs'],
     "All combinations of tag kinds, nesting to depth 2 and text/attribute values from an alphabet of html-special strings.",
     "Tests compare a few fixed renderings.",
     ['formats/xhtml.py', 'tags/tag.py', 'tags/text.py', 'tags/code.py', 'settings.py'],
     [('xhtml_tag', 'formats/xhtml.py'), ('allowed tags', 'settings.py')])

prop('C14', 'TeX output keeps braces and environments balanced and allow-listed',
     "For every document whose own text has balanced braces, the rendered tex has balanced braces and properly "
     "nested begin/end pairs, uses only allow-listed commands and environments for tags, contains all the text of "
     "the tags in order, and puts verbatim text behind a delimiter that does not occur in it; a tag that would "
     "need a command outside the allow-list renders as plain text or is an error.",
     ['inputs'],
     "All combinations of tag kinds, nesting to depth 2, attributes and texts from a small alphabet.",
     "Tests compare a few fixed renderings.",
     ['formats/tex.py', 'tags/tag.py', 'tags/text.py', 'tags/list.py', 'tags/figs.py', 'tags/table.py', 'settings.py'],
     [('tex_cmd / tex_env / tex_verb', 'formats/tex.py'), ('allow lists', 'settings.py')])

prop('C15', 'Attributes apply to the targets they name and to no other',
     "For every attribute string, each entry is read with the key and value written (quoted, unquoted, "
     "positional, typed); when rendering for a target, an attribute given for that target takes precedence over "
     "the general one, attributes given for other targets are not used, and rendering or querying never changes "
     "the attributes stored in the document.",
     ['inputs'],
     "All attribute strings of up to three entries over an alphabet of keys, target suffixes, values and quotings, for all targets.",
     "Tests sample single attributes.",
     ['attributes/attributes.py', 'formats/xhtml.py', 'formats/tex.py'],
     [('find_item / get / filter', 'attributes/attributes.py')])

prop('C16', 'Macros expand fully, only where defined, and always terminate',
     "A macro occurrence is replaced by its definition wherever the exact macro name occurs (nested macros "
     "included, a longer macro name winning over its prefix), text that only resembles a macro is left alone, "
     "macros of a document apply to it and its sub-documents only, and expansion terminates for all definitions, "
     "also self-referring and mutually referring ones.",
     ['inputs'],
     "All sets of up to three macro definitions over bodies from an alphabet (texts and references to macros), and all texts up to a length.",
     "Tests sample two or three macros.",
     ['utils/string.py', 'tags/receivers/macros.py'],
     [('replace_macros', 'utils/string.py')])

prop('C17', 'Paragraph processing keeps content and never nests paragraphs',
     "For every body text, splitting into paragraphs keeps all text and all tags in their order, breaks exactly "
     "at blank lines and around block-level tags, never puts a paragraph in a paragraph or a heading, list or "
     "other block tag in a paragraph, creates no empty paragraphs, and leaves text where paragraphs are not processed unchanged.",
     ['inputs'],
     "All sequences up to a length over words, inline tags, block tags, newlines, blank lines and nested content.",
     "Tests sample a few texts.",
     ['tags/receivers/paragraphs.py'],
     [('process_paragraphs / group_paragraphs', 'tags/receivers/paragraphs.py')])

prop('C18', 'Signal receivers run once each, in the declared order',
     "For every history of connecting, dropping and resetting receivers, emitting a signal runs exactly the connected "
     "live receivers, once each, in ascending order of their declared order and returns their results in that "
     "order; two live receivers can never hold the same order on one signal, and signals of different names do not "
     "affect each other.",
     ['histories'],
     "All connect/drop/reset/emit histories up to a depth over 3 receivers, 3-4 orders and 2 signals.",
     "Tests check a fixed pair of receivers.",
     ['signals/signals.py'],
     [('Signal.connect / emit', 'signals/signals.py')],
     [('receivers', 'order -> receiver', 'signals/signals.py')])

prop('C19', 'Outputs stay in the output directory and never overwrite each other',
     "For every project layout, every file a build creates lies in the output directory, under the folder of the "
     "target format or in the cache, and the sources are never modified; two different documents, targets, "
     "or images of a project never share an output file, and the same image used with different conversion options "
     "gives each use the result of its own options.",
     ['inputs', 'configurations'],
     "All pairs of documents/images over an alphabet of paths (same name in different directories, nested, "
     "project and local, absolute) and of conversion options, for all targets.",
     "Tests check single files.",
     ['builders/utils.py', 'builders/builder.py', 'builders/environment.py', 'paths/paths.py', 'tags/img.py'],
     [('generate_outfilepath', 'builders/utils.py')])

prop('C20', 'The preview server serves only project files, fresh and escaped',
     "For every request path, the preview server answers only with files below the directory it was started in "
     "or its own media files, never with a file outside of them; requesting a rendered document after its source "
     "changed gives the re-rendered document, and every other request gives a proper error page and leaves the "
     "server running.",
     ['inputs', 'histories'],
     "All request paths up to a number of segments over an alphabet of names, '..', empty, encoded and absolute "
     "segments and extensions; edit/request histories up to a depth.",
     "Tests request four fixed pages.",
     ['server/urls.py', 'server/handlers/static.py', 'server/handlers/pygmentize.py', 'server/handlers/projects.py'],
     [('CustomStaticFileHandler', 'server/handlers/static.py'), ('PygmentizeHandler', 'server/handlers/pygmentize.py')])

prop('C21', 'Dependency checks report exactly what is installed',
     "A dependency group is reported as satisfied exactly when its rule is: all of its members for a required "
     "group, at least one for an alternatives group, always for an optional group, to any nesting. A single "
     "dependency is available exactly when the executable, or an installed package of exactly that name and a "
     "satisfying version, exists.",
     ['inputs', 'configurations'],
     "All group trees up to a size with all availability assignments; all (requirement, installed list) pairs over small alphabets of names and versions.",
     "Tests look at the packages of the machine they run on.",
     ['checkers/types.py', 'checkers/checker.py', 'checkers/python.py', 'checkers/utils.py', 'checkers/pdf.py'],
     [('All / Any / Optional', 'checkers/types.py'), ('check_packages_pip', 'checkers/python.py')])

prop('C22', 'Starter projects are copied completely and build',
     "Initialising a project from any listed starter reproduces every file of the starter, byte for byte and "
     "nothing else, below the chosen directory, leaves other existing files alone, asks before touching a "
     "non-empty directory, and the new project loads and renders to its html and tex targets.",
     ['configurations', 'histories'],
     "Every starter crossed with every state of the destination directory and every answer.",
     "Tests clone one starter.",
     ['cli/init.py'],
     [('clone_starter', 'cli/init.py')])

prop('C23', 'Lists keep every item, in order, at its written depth',
     "For every list body, each item appears exactly once, in order, with its full content and tags, and items "
     "are nested according to their written level, whatever the sequence of levels; this is the same structure in "
     "html, xhtml and tex.",
     ['inputs'],
     "All item sequences up to a length over levels 0-3 and content shapes (text, multi-line, tags, empty).",
     "Tests sample a few lists.",
     ['tags/list.py', 'tags/utils.py'],
     [('List parsing', 'tags/list.py')])

prop('C24', 'Tables render every cell of their data in every target',
     "For every data source (inline or file, with or without a header row, quoted or ragged cells, repeated column names), the "
     "rendered table of each target format has exactly the rows and columns of the data in order, each cell with its own text.",
     ['inputs'],
     "All tables up to 3x3 over an alphabet of cell texts, header modes and sources.",
     "Tests sample one or two tables.",
     ['tags/data.py', 'tags/table.py', 'utils/list.py'],
     [('DelimData.load', 'tags/data.py'), ('transpose', 'utils/list.py')])

prop('C25', 'EPUB files are complete and consistent containers',
     "For every project rendered to epub, the archive starts with the uncompressed mimetype entry, contains each "
     "entry once, lists in its manifest exactly the content files it contains, has every document in reading order in its "
     "spine, and no link, image or style sheet in it points at a file that is missing from it; rebuilding after "
     "edits leaves no entry of earlier content.",
     ['inputs', 'histories'],
     "All small project trees and edit histories.",
     "Tests look at one fixed book.",
     ['builders/xhtml2epub.py', 'builders/target_builders/epub_builder.py'],
     [('XHtml2Epub', 'builders/xhtml2epub.py')])

prop('C26', 'Files are found by the documented search order',
     "For every assignment of a file name to the search places, the file used for an image, data or code "
     "reference is the one in the first place of the documented precedence (template, the document's own "
     "directory, project root) that has it, with its path kept relative to that place, so that outputs "
     "mirror the source layout (in the media directory); a name that is a valid path from the process's own working directory is "
     "used as it is; names found nowhere are reported as missing and never resolve to another file.",
     ['inputs', 'configurations'],
     "All subsets of places holding the file, for all reference spellings (plain, nested, ./, absolute, multi-line).",
     "Tests look up a few existing files.",
     ['paths/utils.py', 'document/document_context.py'],
     [('find_file', 'paths/utils.py')])

prop('C27', 'External commands get exactly the intended arguments',
     "For every file name, document attribute and option, the external command started by a conversion step "
     "consists of the program, its fixed options, and each input, output and option value as exactly one intact "
     "argument in its place; no name or value can add, split or turn into another option or command, and no shell is used. "
     "The whole output and the exit code of the command are collected, whatever their size, and a command that exceeds its "
     "time limit is stopped; in a chain of commands each one reads what the previous one wrote.",
     ['inputs'],
     "All file names and attribute values over an alphabet of separators, quotes, hyphens and shell characters, for every builder.",
     "Tests use plain file names.",
     ['builders/builder.py', 'builders/executor.py', 'builders/pdfcrop.py', 'builders/pdf2svg.py', 'builders/scalesvg.py'],
     [('CustomFormatter', 'builders/builder.py'), ('run_cmd_args', 'builders/builder.py')])

prop('C28', 'Exactly the requested target files are produced for every document',
     "For every setting of the targets in a project and its sub-documents, a build creates, for each document, "
     "exactly one file for each of its requested formats (its own setting, or else the inherited one) at the "
     "place mirroring its source path, and none for formats not requested (the epub format gives one file for the project, if its root document requests it); changing the setting and building again follows the new setting.",
     ['configurations', 'histories'],
     "All target settings (absent, none, single, lists, both spellings) for each document of two/three document trees, and all changes between two settings.",
     "Tests fix one or two settings.",
     ['document/document_context.py', 'builders/target_builders/receivers.py', 'builders/environment.py'],
     [('targets', 'document/document_context.py'), ('add_target_builders', 'builders/target_builders/receivers.py')])

prop('C29', 'Contents and navigation follow the document order',
     "For every project, a table of contents lists exactly the selected entries (documents or headings, all, current, "
     "collapsed or expanded) once each, in document order, nested by their level, each linking to its own entry; previous/next "
     "links of each document lead to the neighbouring documents of the same target in project order, with none before the first and after the last.",
     ['inputs', 'configurations'],
     "All heading sequences up to a length over three documents, all toc modes and targets.",
     "Tests compare fixed renderings of a fixed tree.",
     ['tags/toc.py', 'tags/navigation.py', 'label_manager/receivers.py'],
     [('Toc', 'tags/toc.py'), ('set_navigation_labels', 'tags/navigation.py')])

prop('C30', 'Every project under a path is found and built once, from its root document',
     "The projects opened from a directory are exactly the documents of the topmost directories below it that hold documents, "
     "without the documents that another one of them includes; a path to a document opens exactly that document. `dm build` writes "
     "each project once, beside its `src` directory (or into its own directory, or into the output directory given), an output "
     "directory with several projects is refused before anything is written, and the preview server lists every document of "
     "every project once with working links.",
     ['inputs', 'configurations'],
     "All placements of documents in a tree of directories and all include graphs over the documents of one of them, from each path.",
     "Tests open two example trees.",
     ['builders/environment.py', 'cli/build.py', 'cli/options.py', 'server/handlers/tree.py', 'server/handlers/projects.py'],
     [('Environment.create_environments', 'builders/environment.py'), ('build', 'cli/build.py')])

prop('C31', 'Widths in percent are one of the documented widths in every target',
     "For every width of an image or panel given as a percentage up to 100 (with a percent sign or as a fraction, for all targets or "
     "for one), each target gets exactly one of the documented widths, quarter, third, half, two thirds, three quarters or full, the "
     "smallest that is large enough, as a class in html and xhtml and as a part of the text width in tex; a width of another target is "
     "not used, a larger percentage never gives a smaller width, and lengths are kept as written in tex.",
     ['inputs'],
     "All percentages in all notations, for each target and on each kind of tag.",
     "Tests use a few round percentages, and the gap between two windows is one value.",
     ['tags/utils.py', 'tags/img.py', 'tags/figs.py'],
     [('tex_percentwidth', 'tags/utils.py'), ('xhtml_percentwidth', 'tags/utils.py')])

if __name__ == '__main__':
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    for p in P:
        for f in p['anchors']['files']:
            if not os.path.exists('/repo/' + f):
                print('missing anchor', p['id'], f)
        for m in p['anchors']['mechanism'] + p['anchors']['state']:
            if not os.path.exists('/repo/' + m['where']):
                print('missing where', p['id'], m)
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + '\n')
    print(len(P), 'properties')
