#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below.  A
property with rules/<id>.py is claimed; the ones in NA are not."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
D = 'src/disseminate/'


def P(id, title, statement, over, quantifier, why, files, mechanism, tech='',
      note=''):
    return dict(id=id, title=title, statement=statement, over=over.split(),
                quantifier=quantifier, why=why,
                files=[D + f for f in files.split()], mechanism=mechanism,
                tech=tech, note=note)


PROPS = [
    P('S01', 'Events run every processing stage once, in the documented order',
      'When a document is created, loaded or built, or a tag is created, '
      'every registered processing stage for that event runs exactly once, '
      'in ascending order of its position, with the arguments of the event, '
      'and the result of each is collected. No two stages of an event may '
      'hold the same position, a second registration for an occupied '
      'position is refused without changing the first, and all documented '
      'stages are registered in their documented order as soon as the '
      'package is imported. For tags, only the stages that the tag has '
      'switched off are left out.',
      'programs inputs histories',
      'every event emission, for every document and tag, with every set of '
      'imported modules',
      'Tests run single documents and compare outputs; a stage that is '
      'skipped, duplicated or moved shows only for documents in which the '
      'order matters.',
      'signals/signals.py tags/signals.py document/document.py '
      'document/receivers/ tags/receivers/ builders/target_builders/'
      'receivers.py',
      'Signal.connect/emit with integer orders, connect_via at module level',
      'registry extraction from decorators, path traces of connect/emit',
      ),
    P('T01', 'Verbatim content is taken literally',
      'The content of verbatim and code tags is never parsed for tags, '
      'typographically replaced or grouped into paragraphs, wherever they '
      'are nested, and is rendered as the same text (highlighted or escaped '
      'for code). In LaTeX the text is placed unchanged between delimiters '
      'that do not occur in it, or is written out in another way when all '
      'delimiters occur in it.',
      'inputs', 'every content, nesting and target format',
      'Tests use a few snippets; which characters and nestings occur in a '
      'document is unbounded.',
      'tags/text.py tags/code.py tags/receivers/ formats/tex.py tags/tag.py',
      'process_content/process_typography switches; tex_verb delimiters',
      'class-constant evaluation, dataflow and path traces over the AST'),
    P('T02', 'Every tag name selects exactly one tag type',
      'A tag name in a document selects the one tag type that declares this '
      'name or alias; no two types declare the same name, all documented '
      'names are available, and types that are inactive, or that the '
      'document\'s context inactivates, are replaced by the plain tag, as '
      'are unknown names. The new tag gets the name, the attributes, the '
      'content and the context as they were found in the source.',
      'programs inputs', 'every tag name, set of tag types and context',
      'Tests create a few tags; a clash or an unreachable alias shows only '
      'for the names that clash.',
      'tags/tag.py tags/receivers/content.py',
      'TagFactory registry from the class hierarchy',
      'class-hierarchy registry extraction and path traces'),
    P('T03', 'Processing of tags and macros terminates with an error if too '
      'deep',
      'Parsing of nested tags stops with an error at a fixed maximum depth, '
      'each nesting level counts, and an unclosed tag is reported as an '
      'error rather than accepted. Each step of the scan over the source '
      'text moves forward, and the repeated replacement of macros (also of '
      'macros that include themselves) is counted and ends with an error.',
      'inputs', 'every source text and set of macros',
      'Termination cannot be tested; tests have nesting of at most three.',
      'tags/receivers/content.py tags/receivers/macros.py tags/utils.py '
      'settings.py',
      'level counters and loop variants',
      'loop progress (every cycle passes an advance), path traces of limits'),
    P('R01', 'Rendering a tag does not change it',
      'Rendering a document or a tag for any target, any number of times and '
      'in any order, never changes the content, attributes or context of the '
      'tags that are rendered, nor module-wide state; only caches of results '
      'may be filled. Cached file paths, contexts and table cells are kept '
      'per target where they depend on the target, and are not used when '
      'other content, attributes or context are given. Copies of tags and '
      'filtered attributes share no changeable part with the original, at '
      'any depth of tags and lists.',
      'inputs histories', 'every tag type, target and sequence of renderings',
      'Tests render a tag once or twice for one target and compare strings; '
      'a change left behind is seen by a later rendering only.',
      'tags/ formats/ attributes/attributes.py label_manager/'
      'label_manager.py',
      'copies before changes; caches of Img, Eq and tables; copy_tag',
      'interprocedural mutation (effect) analysis with per-path alias roots'),
    P('C01', 'Contexts inherit copies and never change what they inherit',
      'Every document has a context of its own below that of the document '
      'that includes it, or below a copy of the defaults. Inherited and '
      'initial values are copied in, so that nothing done to a context '
      'changes its parent, its initial values, the changes given to it or '
      'the module defaults. A reset removes all entries but the persistent '
      'ones, then takes over the inheritable ones of the parent, then the '
      'initial ones; what belongs to one document only is not inherited.',
      'inputs histories', 'every context, hierarchy and sequence of updates',
      'Tests look at a few entries of two contexts; sharing shows after a '
      'later change, in another document.',
      'context/context.py document/document_context.py document/document.py '
      'document/receivers/',
      'match_update/reset/copy, do_not_inherit and exclude_from_reset',
      'path traces, interprocedural mutation analysis, constant sets'),
    P('C02', 'Header entries update a context by type and precedence',
      'Updating a context with other entries keeps the type of each existing '
      'entry: lists are prepended, sets joined, dictionaries updated '
      'recursively (to a limited depth), tags and scalars replaced by '
      'converted values, and values that cannot be converted are ignored; '
      'entries are kept where overwriting is off. The header of a document '
      'is removed from its text, and takes precedence over the context files '
      'of its template, child templates over parent templates.',
      'inputs', 'every pair of existing and new value, every header',
      'Tests give one or two values per type; combinations of types, '
      'switches and sources are not covered.',
      'context/context.py context/utils.py document/receivers/'
      'process_headers.py utils/string.py',
      'match_update type dispatch; process_headers order',
      'decision tables over all paths, dominance of updates'),
    P('D01', 'Documents are loaded when they changed, and completely',
      'A document is loaded when it is created, when its source or the '
      'document that includes it is newer than its last load, or when the '
      'last load did not succeed, and not otherwise; it is loaded before it '
      'is checked or built. A load checks the source first, counts as done '
      'only when all its stages finished, and starts from a reset context, '
      'so that nothing of an earlier version of the text remains.',
      'inputs histories', 'every document, change of files and failed load',
      'The outcome depends on the history of changes and failures; tests '
      'check one change.',
      'document/document.py document/document_context.py document/receivers/',
      'load_required, load, reset_document, load_document',
      'path traces with decision tables'),
    P('D02', 'The documents of a project form a tree given by the includes',
      'The includes of a document are its subdocuments, in order: documents '
      'that are still included are kept, new ones are created, others are '
      'dropped, and a document that the project already has is not added '
      'again, so that circular includes end. The documents of a project are '
      'listed once each, parents first, and documents with the same id are '
      'an error. Includes are relative to the directory of the document; '
      'targets are a list of file extensions.',
      'inputs histories', 'every project and sequence of changes of includes',
      'Tests include two or three files; repeated, circular and removed '
      'includes depend on the history.',
      'document/document.py document/document_context.py',
      'load_subdocuments, documents_dict, documents_by_id, includes, targets',
      'path traces, reachability on the flow graph'),
    P('L01', 'Labels are unique within a project, and found',
      'A label is added once under its document id and label id; adding '
      'another one with the same ids is an error and keeps the first. A '
      'label is found by both ids, or by its label id alone as the first '
      'one; a missing label is an error, and labels of other documents or '
      'kinds are not returned. Labels are registered, by one thread at a '
      'time, before they are used, again after labels were added or '
      'removed; loading a document removes the labels of this document '
      'only.',
      'inputs histories schedules',
      'every sequence of labels added, documents loaded and labels used',
      'Duplicates, reloads and concurrent renderings depend on the order of '
      'operations on several documents.',
      'label_manager/label_manager.py label_manager/receivers.py '
      'label_manager/types/label.py tags/label.py tags/headings.py '
      'tags/caption.py tags/figs.py tags/table.py tags/ref.py',
      'add_label, get_label, get_labels_by_kind, register, reset',
      'path traces with decision tables'),
    P('L02', 'Labels and documents are ordered as in the project',
      'Labels of documents that are not in the project any more are removed '
      'and the others are in the order of the documents, then of their '
      'text. Labels are numbered by kind, with the resets that are '
      'configured, and refer to the part, chapter, section, subsection and '
      'subsubsection they are in. Links to the previous and next document '
      'follow the order of the documents with the same target; links that '
      'do not apply any more are removed.',
      'inputs histories', 'every project and sequence of labels',
      'The numbers of a label depend on all labels before it, in all '
      'documents.',
      'label_manager/register_orders.py label_manager/'
      'register_content_labels.py label_manager/types/content_label.py '
      'tags/navigation.py',
      'register_orders, register_content_labels, set_navigation_labels',
      'path traces, dataflow of the current headings'),
    P('B01', 'Builds are repeated when, and only when, something changed',
      'A build is needed whenever an input file or its output file is '
      'missing, or the content of an input file, a text parameter, the '
      'command or the content of the output file differs from the last '
      'finished build; otherwise it is not. Contents are compared in full by '
      'hash, whatever the dates of the files, and only creation dates, '
      'modification dates and ids of PDF files are ignored. The result does '
      'not depend on the order of the inputs and survives restarts.',
      'inputs histories', 'every set of inputs and history of builds',
      'A missed change leaves stale output; it shows only for particular '
      'contents (chunk boundaries, mixed parameters) and histories.',
      'builders/deciders/decider.py builders/deciders/md5decider.py '
      'builders/deciders/utils_hash.py builders/builder.py',
      'Decision.build_needed, Md5Decision, hash_items, Builder.build_needed',
      'path traces under case assumptions'),
    P('B02', 'The status of a build is truthful, and failures are reported',
      'A build counts as done only if nothing has to be built or its command '
      'ended with exit code 0 and the output file exists; a command that '
      'fails raises an error with the command and its output, and one that '
      'exceeds its time limit is ended and raises. A group of builds is done '
      'only when each of its members is, members of a sequential group start '
      'only after the one before has finished and are given its output as '
      'their input, and none is dropped before it is done. A builder is active only if every program it requires is '
      'there, and a complete build of a document or builder returns only '
      'after nothing is left to start or to wait for.',
      'inputs histories schedules',
      'every builder, every outcome of its process and order of completion',
      'Orders of completion, crashes and timeouts of external programs do '
      'not occur in unit tests, which mostly run one builder to its end.',
      'builders/builder.py builders/composite_builders/composite_builder.py '
      'builders/executor.py builders/copy.py builders/save_temp.py '
      'builders/jinja_render.py builders/target_builders/receivers.py',
      'Builder.status, Builder.build, CompositeBuilder.build, executor.run',
      'path traces under case assumptions for every state'),
    P('B05', 'External programs are run without a shell and with safe options',
      'Programs are only run from a list of arguments that begins with a '
      'fixed program, never through a shell, and no text of a document or '
      'file is ever evaluated as Python code. In the command of a builder, '
      'each input or output file is a single argument whatever characters '
      'its name contains, no file name or value can be read as an option, and '
      'values given in tags, such as crop or scale, are passed only after '
      'conversion to numbers. Each command has a time limit, is used only if '
      'its program is installed, and runs in the safe mode of the program: '
      'no access to other files for asymptote, no shell escape and no waiting '
      'for input for LaTeX.',
      'inputs programs', 'every file name, tag attribute and builder',
      'File names with blanks or leading dashes, and hostile attribute '
      'values, are not in the tests; a single new call site could break it.',
      'builders/builder.py builders/executor.py builders/pdfcrop.py '
      'builders/pdf2svg.py builders/scalesvg.py builders/asy_builders.py '
      'builders/pdflatex.py builders/latexmk.py builders/validators.py '
      'checkers/',
      'CustomFormatter, Builder.run_cmd_args, executor.run',
      'enumeration of all process and evaluation sinks, path traces, constant '
      'evaluation of commands'),
    P('B03', 'Everything a built file is made from is tracked as an input',
      'The decision whether a page has to be rendered again takes into '
      'account all it is made from: the source files of its document and of '
      'the parent documents, the template with all templates it extends or '
      'includes, their context files, the stylesheets and images these link '
      'to, the content of its tags including files read by code and data '
      'tags, its image files, and the labels it refers to, lists in a table '
      'of contents, owns, or links to as previous and next page, with their '
      'numbers and titles. Files an html page links to are copied with it to '
      'the same path in its target; a pdf is built from the tex file of its '
      'document, and an epub from the pages of all documents, the files they '
      'use and a table of contents, in this order.',
      'inputs histories', 'every document tree, template and sequence of '
      'edits between builds',
      'A dependency that is not tracked only shows when precisely that file '
      'changes between two builds of an otherwise unchanged project.',
      'builders/builder.py builders/jinja_render.py '
      'builders/scanners/scanner.py builders/scanners/html_scanner.py '
      'builders/target_builders/target_builder.py '
      'builders/target_builders/html_builder.py '
      'builders/target_builders/epub_builder.py '
      'builders/target_builders/pdf_builder.py tags/ref.py tags/toc.py '
      'tags/img.py tags/navigation.py label_manager/types/label.py',
      'Builder.parameters, JinjaRender.build_inputs, Scanner.scan, '
      'TargetBuilder.__init__, the render_dependencies receivers',
      'path traces under case assumptions'),
    P('P01', 'Only the output directories are written to',
      'Whatever paths, names and attributes are used in documents, files are '
      'only created or replaced in the target directory of the project, '
      'which is the project directory or the one above a source directory, '
      'and its cache directory: absolute paths and parent directories in the '
      'names of files lead to outputs inside these. Documents are written '
      'below the directory of their target, fragments and temporary files in '
      'the cache under a name that includes a hash of all of their content. '
      'Source files are never removed, and a copy of a file on itself leaves '
      'it as it is.',
      'inputs configurations', 'every path, name, target, extension and content',
      'The tests use a few well-behaved relative names; one operation on a '
      'path with another origin is enough to lose files of the user.',
      'builders/utils.py builders/builder.py builders/jinja_render.py '
      'builders/target_builders/target_builder.py builders/copy.py '
      'builders/save_temp.py builders/environment.py paths/paths.py '
      'paths/utils.py utils/file.py cli/init.py',
      'generate_outfilepath, generate_mock_parameters, TargetPath, '
      'Builder.outfilepath',
      'enumeration of all file system sinks and output path origins, path '
      'traces under case assumptions, dependence of names on contents'),
    P('R04', 'Only listed LaTeX commands and HTML elements are written, with '
      'their arguments',
      'Every LaTeX command and environment written through tex_cmd and '
      'tex_env is listed in the settings (TexFormatError is raised for any '
      'other) and has all its required arguments (TexFormatError is raised '
      'if one is missing), the optional arguments it accepts, its braces and '
      'its content. Every HTML element made by xhtml_tag is a listed one, or '
      'a span whose class is the name of the tag; it has its required '
      'attributes (XHtmlFormatError otherwise), only the optional attributes '
      'it accepts, and all its non-empty contents in order; html is written '
      'as html, xhtml as xml. LaTeX arguments are written as {value} and '
      'options as [a, k=v] without losing one. No listed element, attribute '
      'or command runs code or reads files. Every width from 1% to 100% is '
      'in exactly one width window of LaTeX and of HTML.',
      'inputs', 'every name, set of attributes, content and width',
      'The tests format a few commands and elements; the guarantee is about '
      'all names, attributes and contents that documents can have.',
      'formats/tex.py formats/xhtml.py attributes/attributes.py '
      'tags/utils.py settings.py',
      'tex_cmd, tex_env, xhtml_tag, Attributes.tex_arguments, '
      'tex_percentwidth, xhtml_percentwidth',
      'path traces under every combination of listed and unlisted names, '
      'present and missing arguments, flattened output pieces, constant '
      'evaluation of the tables'),
    P('R05', 'The text of documents is never taken as HTML or XML markup',
      'Text of documents and of the project (contents, attributes, titles, '
      'paths, labels, error messages) appears in html, xhtml, opf and xml '
      'files and in the pages of the server as text: only html that lxml or '
      'pygments wrote is marked as safe, only text marked as safe is read '
      'as html, and every template of these formats escapes the values it '
      'shows, while LaTeX is not escaped as html.',
      'inputs', 'every text of a document, every template value',
      'A missing escape shows only with texts that have <, > or & in the '
      'one place that is not escaped; the tests use a few such texts.',
      'formats/xhtml.py tags/code.py builders/jinja_render.py '
      'server/handlers/pygmentize.py server/app.py',
      'Markup sinks, etree.fromstring, JinjaRender.jinja_environment, '
      'templates',
      'enumeration of all sinks that mark or read markup with their value '
      'origins, path traces of the guards, constant evaluation of the '
      'escaping options against the templates of the package, queries over '
      'the templates'),
    P('B04', 'Each conversion is given the one builder that can do it',
      'Whatever the formats, the installed programs and the order of the '
      'classes: the builder that is found is available, has all its programs '
      'and the highest priority for its formats, no two have the same; with '
      'a target an allowed format is copied and others are converted to the '
      'first format of the target that can be made; without one there is an '
      'error. Every document gets one new builder for each of its targets, '
      'and an added file the builder for its format, its target and its '
      'parameters.',
      'inputs', 'every pair of formats, target, set of installed programs '
      'and document tree',
      'Tests run with one set of installed programs and find builders for a '
      'few formats.',
      'builders/builder.py builders/target_builders/receivers.py '
      'builders/composite_builders/parallel_builder.py settings.py',
      'Builder.find_builder_cls, Builder.active, add_target_builders, '
      'ParallelBuilder.add_build',
      'path traces of the selection with fixed outcomes of its tests, '
      'constant evaluation of the table of builders (uniqueness, required '
      'programs, formats requested at call sites and by tags)'),
    P('E01', 'An epub file holds and lists all files of the book',
      'Whatever the documents of a project and the files they use: the epub '
      'starts with the uncompressed mimetype, has the container file that '
      'names its package file, every page and every style sheet and image '
      'of the formats pages may use under its own path, and the package '
      'file lists each of them with its media type and all pages in the '
      'reading order with the contents as navigation; the parts are built '
      'before they are stored and the file counts as built only once it is '
      'complete.',
      'inputs', 'every document tree and set of used files',
      'Tests make epubs of one or two documents with style sheets only.',
      'builders/xhtml2epub.py builders/target_builders/epub_builder.py '
      'templates/default/xhtml',
      'XHtml2Epub.build, create_opf_builder, filepath_dict_list, '
      'content.opf',
      'path traces of the archive writer (order, completeness, names), '
      'cross-check of the formats in the settings, the lists in the code '
      'and the loops of the package template'),
    P('F01', 'Files named in documents are the ones that are found and read',
      'For every text in a document that may name files and every list of '
      'directories: the path itself is taken when it is a file, otherwise '
      'the first directory of the context, in order, that has it; an '
      'absolute path is looked for nowhere else; a name that is not found is '
      'an error or no file, as asked, and never a path that does not exist. '
      'Images, code and data files use these: every line that names a file '
      'is replaced by the file, in order, and text that names none is kept '
      'as it is.',
      'inputs', 'every text, path and list of directories in a context',
      'Tests look for a few files in one or two directories of a fixed '
      'layout.',
      'paths/utils.py tags/code.py tags/img.py',
      'find_file, find_files, load_io_stream, Code.__init__, '
      'Img.content_as_filepath',
      'path traces of the search with fixed outcomes of its tests: what is '
      'tested, in which order, and what is returned'),
    P('V01', 'The preview server shows only the project, up to date',
      'For every request: the server listens for this computer only; a '
      'source file is read and shown only when, without links and "..", it '
      'is below the current directory or a directory of a loaded project, '
      'and is forbidden otherwise; each path is given to the handler of its '
      'kind of page; html, tex and epub pages are shown after the documents '
      'are built, the documents being loaded once for the given path; the '
      'tree lists every document with its subdocuments; and every page and '
      'error page can be rendered: its template exists and uses only values '
      'that it is given, escaped.',
      'inputs', 'every request path, document tree and error',
      'Tests request a few existing pages of one project from a test client.',
      'server/app.py server/urls.py server/handlers/pygmentize.py '
      'server/handlers/projects.py server/handlers/server.py '
      'server/handlers/tree.py templates/server/500.html cli/preview.py',
      'PygmentizeHandler.is_allowed, PygmentizeHandler.get, url_patterns, '
      'load_projects, ServerHandler, templates',
      'path traces with fixed outcomes of the tests, matching of the constant '
      'routes, class hierarchy of the handlers, and names used in templates '
      'against names given at render calls'),
    P('K01', 'Missing and present dependencies are reported as they are',
      'For every list of dependencies: it is available when all, any or none '
      'of them have to be and are, those that are not known counting as '
      'missing; each category is checked by its handler and an unhandled one '
      'is an error; a program, LaTeX file or Python package is available '
      'exactly when one of its whole name, and of an accepted version, is '
      'found; and the command and the page show missing dependencies as '
      'failures only where they are required.',
      'inputs', 'every nesting of dependency lists and every set of '
      'installed programs, LaTeX files and Python packages',
      'Tests see one installation and check that available is not None.',
      'checkers/checker.py checkers/types.py checkers/pdf.py '
      'checkers/python.py checkers/utils.py software_dependencies.py '
      'server/handlers/checkers.py cli/setup/checkers.py',
      'Checker.check, check_executables, check_kpsewhich, '
      'check_packages_pip, available, checker_to_dict, print_dependencies',
      'path traces of the checks and of the lists with fixed outcomes of '
      'their tests, and constants (comparison table, pattern on samples, '
      'handlers of the listed categories)'),
    P('I01', 'Starting a project overwrites nothing unasked and is complete',
      'For every starter and output directory, init copies every file of the '
      'starter, but its description, to its place below the output '
      'directory; it does so only if the directory is empty, the user agrees '
      'or questions were switched off, and changes no other file; listing, '
      'information and unknown names copy nothing; and each starter has a '
      'description, the documents it includes and the templates of all of '
      'its targets.',
      'inputs', 'every starter, output directory and answer',
      'Tests start one or two projects in an empty temporary directory.',
      'cli/init.py templates',
      'init, clone_starter, is_empty, starter_filepaths, '
      'generate_starters_dict',
      'path traces of the command with fixed outcomes of its tests, the '
      'calls of the module that change files, and the files of every '
      'starter against the templates their headers name'),
    P('A01', 'Attributes are found for the target that is rendered',
      'For every set of attributes and every target, an attribute for the '
      'target (name.target) is used in place of the general one, one for '
      'another target never is, and the general one is used otherwise, for '
      'named and positional attributes alike; filtered attributes have '
      'exactly the wanted entries, in the wanted order and without the '
      'ending of the target; every entry of an attribute string is loaded '
      'without its quotes and with the type of its text.',
      'inputs', 'every set of attributes, target and attribute string',
      'Tests have a few combinations of names and targets.',
      'attributes/attributes.py utils/types.py tags/img.py tags/eqs.py '
      'tags/table.py tags/utils.py',
      'Attributes.find_item, Attributes.get, Attributes.filter, '
      'Attributes.strip, Attributes.load, strip_attr, positionalvalue_type',
      'path traces of the look-ups with fixed outcomes of their tests (entry '
      'for the target, general, of a wanted type), and the arguments of the '
      'look-ups in the renderers'),
    P('R02', 'Formats do not mix',
      'For every tag and format, the rendering of a tag contains renderings '
      'of nested tags, labels, links and attributes of the same format only: '
      'each format function uses the functions and targets of its own '
      'format, passes the method, the nested format and the math mode on to '
      'what it nests, the rendering asked for (html, xhtml, tex, txt) is that '
      'of its function, and the template of each format renders the body '
      'once, in that format.',
      'programs inputs', 'every tag type, nesting of tags and format',
      'Tests render few nestings, mostly for html and LaTeX.',
      'tags templates',
      'html_fmt, xhtml_fmt, tex_fmt, default_fmt, html_table, tex_table, '
      'format_content, content_to_str, template.html',
      'all calls of the format functions of all tag types, with the format '
      'of each called function and target and the parameters passed on; '
      'traces of the entry points; the bodies in the blocks of the '
      'templates'),
    P('R03', 'Content and attributes are kept in every format',
      'For every tag type, format, content and attributes: the rendering of '
      'a tag has the whole content of the tag (or the content it is given), '
      'in order, in the element, command or environment of the tag, and with '
      'the attributes of the tag (or those it is given); captions and '
      'headings have their label, content and anchor, tables all cells of '
      'all rows, lists all items at their level, references and labels the '
      'text of their format, and classes of a tag type are added to the '
      'classes a user sets on figures, tables and boxes. Tags are made with '
      'the name, content, attributes and context they are given.',
      'inputs programs', 'every tag type, format, content and attributes',
      'Tests render few contents per tag, mostly a single string; a list of '
      'strings and tags, passed content or attributes, or a format used '
      'within another tag take other paths.',
      'tags',
      'default_fmt, tex_fmt, html_fmt, xhtml_fmt, tex_table, html_table, '
      '__init__ of all tag types',
      'path classes of each format function under assumptions on the kind '
      'of content and attributes (given or own, list or string, label or '
      'none, math or text), with the returned call and its arguments'),
    P('T04', 'Text is kept between the source and the tags',
      'For every text: parsing keeps the text before, between and after the '
      'tags, in order, and gives each tag the unchanged text between its '
      'matching braces; grouping into paragraphs ends a paragraph at each '
      'blank line, leaves out nothing but blank lines and paragraphs of white '
      'space, and keeps all other text and tags in order; joining strings '
      'drops only empty ones; typography changes nothing but dashes, quotes '
      'and apostrophes, by the sign of the same kind; a macro that is known '
      'is replaced by its value, and all other text is kept.',
      'inputs', 'every text with tags, braces, blank lines, quotes and macros',
      'Tests compare few short texts; lost or reordered pieces need a '
      'combination of tags, nested braces and breaks.',
      'tags/receivers utils/string.py',
      'parse_tags, process_content, group_paragraphs, clean_paragraphs, '
      'process_paragraph_tags, process_tag_typography, group_strings, '
      'replace_macros',
      'path classes of the functions with their list operations, matched '
      'positions kept symbolic; regular expressions judged as constants'),
    P('L03', 'References and tables of contents lead to the labels they list',
      'A reference links to the label with the id in its content: to the '
      'anchor of the label if it is in the same document, and to the file of '
      'the other document for the same target, with the anchor, otherwise; '
      'references to documents have no anchor, and there is no link if a '
      'document has no file for the target. Links are relative to the '
      'directory of the document they are in, or made of the base url if '
      'relative links are switched off. A table of contents lists the labels '
      'of the kinds in its content, of all documents or its own, with the '
      'first label only of each other document if it is abbreviated, in '
      'their order and at their level, and each entry is a reference to its '
      'label. Links to the other formats and the source of a document go to '
      'these files.',
      'inputs', 'every project, set of labels, targets and table of contents',
      'The links depend on which document, directory and target every pair '
      'of documents and labels is in.',
      'tags/ref.py tags/toc.py tags/navigation.py paths/paths.py',
      'Ref.url, Ref.document, Ref.html_fmt, Ref.tex_fmt, '
      'TargetPath.get_url, TargetPath._get_relative_url, '
      'OtherLink.other_relpath, Toc.get_labels, Toc.reference_tags, '
      'Toc.html_fmt',
      'path traces of the functions that make links and entries with fixed '
      'outcomes of the tests: url, anchor, target and document of each'),
    P('P02', 'Projects, documents and their files are found in their places',
      'The projects of a directory are all document files of its topmost '
      'directories that have document files, and a document file is a '
      'project of its own; the directory of the project is that of the '
      'document. The output directory is the one given, and otherwise the '
      'parent of a source directory or the directory of the project itself, '
      'with the cache below; one output directory for several projects is '
      'refused. A document has the path that it is given, relative to its '
      'project, and its file for a target is the one that the builder for '
      'the target makes, with an error if there is none; the files of a '
      'document are those of all its builders. Its title is the title of its '
      'header, and its path otherwise; the short title is that of the '
      'header, and the title otherwise; its targets are those of its header, '
      'and none if one of them is none.',
      'inputs', 'every directory tree, document, header and target',
      'Which files are projects, and where their files are, depends on the '
      'directory tree.',
      'builders/environment.py document/document.py '
      'document/document_context.py cli/options.py',
      'Environment.create_environments, Environment._get_src_filepaths, '
      'Environment.__init__, Environment.get_target_root, '
      'Environment.cache_path, Document.__init__, Document.title, '
      'Document.short, DocumentContext.targets, '
      'DocumentContext.target_filepath, DocumentContext.target_filepaths, '
      'check_out_dir',
      'path traces and conditions of the functions that find projects, '
      'directories and files'),
    P('L04', 'Labels and references show the format for their kind',
      'The text of a label is made from the format of the project for its '
      'kind, and that of a reference from the format for references to that '
      'kind: the most specific format there is, the one for the target '
      'rendered before the one for all targets, and it is an error if there '
      'is none. Headings, captions of figures and tables, and documents have '
      'labels of their kind, each kind has a default format, and the format '
      'gets the values of this label: its number is that of its most '
      'specific kind, and the numbers and titles of the part, chapter, '
      'section and so on are those of the headings it is below, joined in '
      'this order in its tree number.',
      'inputs', 'every label, kind, format and target',
      'Formats are found by joined keys of any length in settings that '
      'users extend.',
      'label_manager/label_manager.py utils/dict.py '
      'label_manager/types/content_label.py tags/headings.py '
      'tags/caption.py settings.py',
      'LabelManager.format_string, find_entry, LabelTag.default_fmt, '
      'LabelTag.tex_fmt, LabelTag.html_fmt, Ref.default_fmt, '
      'Heading.generate_label_kind, Caption.generate_label_kind, '
      'ContentLabel.tree_number, get_label_number',
      'path traces of the functions that find and fill formats; the '
      'constants of the settings'),
    P('G01', 'The templates that come with the program show the documents',
      'Every template is well formed; the templates it extends and includes, '
      'and the files it names, exist; its blocks are blocks of the templates '
      'it extends, and it has nothing outside of them. Every template for a '
      'target shows the whole body of a document exactly once, in the format '
      'of that target, whatever the entries of the document are, and no tag '
      'in another format; there are default templates for HTML, XHTML, TeX '
      'and text. Links, and entries for the previous and next document, are '
      'shown only if they are there. The settings of templates name tags and '
      'values of labels that there are. Starters have a description, and '
      'their documents include files, and use templates and targets, that '
      'there are. The pages of the preview server exist, and use only '
      'values that the server gives them.',
      'inputs', 'every template, block, entry, page and starter',
      'A template is used for any document and entries; the tests render few.',
      'templates/ settings.py builders/jinja_render.py',
      'default/html/template.html, default/tex/template.tex, '
      'books/tufte/html/template.html, settings.default_context, '
      'JinjaRender.template',
      'parse of all templates and starters, with blocks resolved along the '
      'templates that are extended'),
]

NA = [
    P('X01', 'Attribute strings survive a round trip',
      'For all attributes, formatting them as text and loading the text '
      'again gives the same attributes.',
      'inputs', 'all keys and values', 'Quotes, brackets and spaces in values '
      'combine in ways tests do not sample.', 'attributes.py',
      'Attributes.load, Attributes.__str__', '-',
      'Whether a regular expression reads back what was written is a matter '
      'of the values, and needs them to be run or a string solver; the parts '
      'that are visible in the code are claimed in A01.'),
    P('X02', 'Lists and tables of contents nest as their levels say',
      'For all sequences of levels of list items or headings, the nested html '
      'or LaTeX list has each item in the list of its level.',
      'inputs', 'all sequences of levels', 'Jumps of several levels up or '
      'down are sampled by a few sequences.', 'tags/list.py tags/toc.py',
      'parse_string_list, ListItem levels, TocRef nesting', '-',
      'The nesting depends on sums of levels over a loop without bound; no '
      'static rule in reach relates them. That all items are kept at the '
      'level that was parsed is claimed in R03.'),
    P('X03', 'Every rendered file is valid LaTeX, HTML or EPUB',
      'For all documents, LaTeX compiles the tex file, the html file is '
      'valid, and epub readers open the book.',
      'inputs programs', 'all documents', 'Tests run few documents through '
      'the programs, where they are installed.', 'templates formats',
      'templates, tex_cmd, xhtml_tag', '-',
      'Validity is decided by external programs and by text users write as '
      'LaTeX or templates; R04, R05 and E01 claim what the code determines.'),
    P('X04', 'Images keep their proportions and the size asked for',
      'For all images, crops, scales and pages, the converted image has the '
      'asked region and scale.',
      'inputs', 'all images and parameters', 'Tests convert few images.',
      'builders tags/img.py', 'PdfCrop, ScaleSvg, ImageMagick builders', '-',
      'Decided by external programs and arithmetic on their output; that the '
      'parameters are passed as numbers to the right option is claimed in '
      'B05 and B03.'),
    P('X05', 'Loading and building time grows with the size of the project',
      'For all projects, loading takes time linear in the text, and a build '
      'without changes takes no more than a comparison of hashes.',
      'inputs schedules', 'all projects', 'Tests use small projects.',
      'document builders', 'Document.load, decisions', '-',
      'Run time is not visible to the rules; that nothing is built or loaded '
      'again without need is claimed in B01 and D01.'),
]


def main():
    claimed = [p for p in PROPS if os.path.exists(
        os.path.join(HERE, 'rules', p['id'].lower() + '.py'))]
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS + NA:
            if p in PROPS and p not in claimed:
                continue
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'][:80],
                'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['quantifier']},
                'why_tests_cant': p['why'],
                'anchors': {
                    'files': p['files'],
                    'mechanism': [{'name': p['mechanism'],
                                   'where': ' '.join(p['files'])}]}}) + '\n')
    m = {
        'version': 1, 'setup_cmd': 'python3 -c "import ast, sys; '
        'sys.exit(sys.version_info < (3, 8))"',
        'checks': [{
            'property': p['id'],
            'quick_cmd': 'python3 check.py %s' % p['id'],
            'thorough_cmd': 'python3 check.py %s --thorough' % p['id'],
            'technique': 'static analysis: ' + p['tech'],
            'level': 'other',
            'level_note': p['note'] or (
                'Decided on all paths of the flow graphs of the current '
                'source, calls resolved through the class hierarchy, new '
                'helpers inlined. Trusts the semantics of the libraries '
                'used, the reading of Python by the analyser, and that '
                'attributes are not rebound by reflection.'),
        } for p in claimed],
        'not_applicable': [{'property': p['id'], 'reason': p['note']}
                           for p in NA],
        'notes': 'All checks are static: they parse /repo/src on every run '
                 'and never import or run it. DESIGN.md describes the rules.',
    }
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print(len(claimed), 'claimed', len(NA), 'not applicable')


if __name__ == '__main__':
    main()
