# prop(id, title, statement, over, quantifier text, why tests can't, files, mechanism, ...)

prop('C11', 'Block parameters are accepted, forwarded and never silently ignored',
     'Constructing any block sets up the common block parameters (zones, if_empty_tree) exactly once, whatever path '
     'its constructor takes. A parameter that is not declared by the block or by a block it specialises is rejected '
     'with an error, and every declared parameter has an effect on the constructed block: it is never dropped and '
     'never delivered to a different parameter of the block it specialises.',
     ['configurations', 'inputs'], 'all blocks of the library and all combinations of constructor parameters',
     'The tests construct a handful of blocks with default parameters; there are about 200 blocks and arbitrarily '
     'many parameter combinations.',
     ['udapi/core/block.py', 'udapi/core/basereader.py', 'udapi/core/basewriter.py', 'udapi/block/**'],
     [('root constructor rejects leftover keyword parameters', 'udapi/core/block.py Block.__init__'),
      ('every block constructor forwards **kwargs to super().__init__', 'udapi/block/**')],
     level_note='Sound for the constructor bodies analysed under the assumption that base constructors are called '
                'through super() or by class name; parameters set by setattr are not followed.',
     technique='must-call path dataflow and parameter-forwarding analysis over all block constructors')

prop('C14', 'Text files are read and written in explicit UTF-8, never the locale encoding',
     'Every text file the library opens for reading or writing, compressed or not, is decoded or encoded with an '
     'explicitly given encoding that is UTF-8 unless the user asked for another one, and the user\'s choice reaches '
     'every stream that is opened for the data. Readers skip a byte order mark by default, writers never add one, '
     'and no text is dropped or replaced because it cannot be decoded or encoded.',
     ['configurations', 'inputs'], 'all platforms and locales, all files and all encodings a user asks for',
     'The tests run in one UTF-8 locale, where a missing encoding has no visible effect.',
     ['udapi/core/files.py', 'udapi/core/basereader.py', 'udapi/core/basewriter.py', 'udapi/block/write/corefhtml.py'],
     [('encoding parameter handed from the readers and writers to the opening call', 'udapi/core/files.py, '
       'udapi/core/basewriter.py')],
     level_note='Decides the encoding argument of every opening call that can be resolved; encodings computed at '
                'run time (the user\'s own parameter) are taken as the user\'s choice.',
     technique='interprocedural constant propagation over all file-opening call sites')

prop('C01', 'String and mapping views of features, MISC and mention attributes always agree',
     'An object that offers both a string view and a mapping view of its entries (morphological features, MISC, '
     'mention attributes) shows the same entries in both, after any sequence of construction, assignment, deletion, '
     'clearing, update, copying and replacement. Setting a name to None or the empty string removes it from both '
     'views, and a missing name reads as the empty string. Copies, and objects or node attributes assigned from '
     'another one, never share later changes with it.',
     ['operation sequences', 'inputs'], 'all sequences of public operations on all contents',
     'The two views are synchronised lazily, so a mistake shows only after particular sequences of reads and writes; '
     'the tests try a few.',
     ['udapi/core/dualdict.py', 'udapi/core/feats.py', 'udapi/core/coref.py', 'udapi/core/node.py',
      'udapi/core/mwt.py'],
     [('lazy synchronisation of string and dictionary', 'udapi/core/dualdict.py DualDict, udapi/core/coref.py '
       'OtherDualDict')],
     level_note='Exhaustive over abstract states for one arbitrary name and a summary of all others; names and '
                'values are assumed not to contain the entry separator, and the order of entries is not decided.',
     technique='abstract interpretation with heap summarisation, closed over all public operations')

prop('C16', 'No code path uses a name, attribute or call signature that does not exist',
     'Whatever path is taken, library code never refers to a variable, module member or attribute of a library object '
     'that does not exist, and never reads a local variable before it was assigned. Library functions, methods and '
     'constructors are always called with arguments their signatures accept.',
     ['inputs', 'configurations'], 'all functions of the library and all paths through them',
     'The tests execute a small part of the roughly 200 blocks; a misspelt name or a wrong argument in a rare branch '
     'is only seen when that branch runs.',
     ['udapi/**'],
     [('attribute and call resolution against the classes that can reach the expression', 'udapi/core/*.py, '
       'udapi/block/**')],
     level_note='Reports only where all possible classes of the object are known; values the type inference cannot '
                'bound are counted as undetermined in the evidence. Correlated conditions beyond textually repeated '
                'tests are not modelled.',
     technique='whole-program type inference, name resolution, definite-assignment dataflow, signature checking')

prop('C03', 'Parents and children always mirror each other; trees list exactly their nodes',
     'After any sequence of attaching, creating, removing, flattening, reordering and moving nodes between trees, and '
     'in every tree a reader builds, each node is listed exactly once among the children of its parent and of no other '
     'node, and children are listed in word order. The list of all nodes of a tree contains each attached node exactly '
     'once and no others, and every node knows the tree it is attached to.',
     ['operation sequences', 'inputs'], 'all trees and all sequences of structural operations',
     'Tests exercise a few fixed trees; a link forgotten in one branch (for example when a removed node has children '
     'and they are kept) shows only for particular shapes and operation sequences.',
     ['udapi/core/node.py', 'udapi/core/root.py', 'udapi/block/read/**', 'udapi/tool/udpipeonline.py'],
     [('redundant parent, children and descendants links updated together', 'udapi/core/node.py Node.parent, '
       'Node.create_child, Node.remove; udapi/core/root.py Root.steal_nodes, Root.flatten; read/conllu.py')],
     level_note='Exhaustive over abstract trees in which the operated node, its argument and their neighbours are '
                'tracked individually and all other nodes are summarised; assumes the property before the operation. '
                'Moves in the word order are decided for all moves in three trees of seven to nine words.',
     technique='abstract interpretation with heap summarisation (shape analysis); typestate for direct link writers')

prop('C26', 'No operation and no reader ever creates a cycle in a dependency tree',
     'Following the parents from any node of a tree always ends in its technical root. Making a node its own parent, '
     'or attaching it to one of its descendants at any depth, is rejected, and readers reject (or repair, if asked '
     'to) files whose heads form a cycle of any length, so that no cyclic tree is ever delivered.',
     ['inputs', 'operation sequences'], 'all trees, all pairs of nodes and all head columns',
     'A cycle makes every traversal loop forever; tests contain no cyclic input of more than one shape.',
     ['udapi/core/node.py', 'udapi/core/root.py', 'udapi/block/read/conllu.py', 'udapi/block/read/conll.py'],
     [('cycle check in the parent setter', 'udapi/core/node.py Node.parent'),
      ('is_descendant_of check when a read tree is assembled', 'udapi/block/read/conllu.py, '
       'udapi/block/read/conll.py')],
     level_note='Exhaustive over abstract trees (relations of the two nodes) and over all head assignments of small '
                'assembled sentences; assumes acyclicity before the operation.',
     technique='abstract interpretation with heap summarisation (reachability of the root)')

prop('C04', 'An edit that fails leaves the document exactly as it was',
     'When an editing operation on trees, bundles, mentions, entities, bridging links, features or MISC ends with an '
     'error (an impossible parent or reference node, nodes of several trees, an invalid or duplicate zone, words '
     'without the head, a malformed span, an invalid or duplicate entity id, an unsupported value type), nothing that '
     'existed before the call has changed: no link, list, id or attribute of any node, tree, bundle, mention or entity.',
     ['inputs', 'operation sequences'], 'all editing operations and all arguments they reject',
     'Tests check that errors are raised, not what is left behind; a check placed after the first write corrupts the '
     'document only for callers that catch the error.',
     ['udapi/core/node.py', 'udapi/core/root.py', 'udapi/core/bundle.py', 'udapi/core/coref.py', 'udapi/core/document.py',
      'udapi/core/dualdict.py'],
     [('validation before the first write in every setter', 'udapi/core/node.py Node.parent, Node.shift_*; '
       'udapi/core/root.py steal_nodes, zone, sent_id; udapi/core/bundle.py add_tree; udapi/core/coref.py')],
     level_note='Decides every exceptional path of the listed operations on abstract documents; errors that come from '
                'inside lazy deserialisation of coreference are excluded.',
     technique='abstract interpretation with heap summarisation; heap comparison on exceptional exits')

prop('C05', 'Deleting or moving the visited element never makes a loop skip another one',
     'While the library itself visits the nodes, empty nodes, multiword tokens, mentions, bundles, links or MISC entries '
     'of a document, the element being visited may be removed or moved, by the library\'s own code, by a block\'s '
     'process_* method or by user code in util.Eval, and every other element is still visited. Queries for children, '
     'siblings, descendants, coreference entities and coreference mentions return a list that later edits do not change.',
     ['operation sequences', 'inputs'], 'all loops of the library and everything their bodies can remove',
     'Skipping shows only when a removed element is directly followed by another one that matters; tests remove single '
     'elements.',
     ['udapi/core/block.py', 'udapi/core/node.py', 'udapi/core/root.py', 'udapi/core/coref.py', 'udapi/core/document.py',
      'udapi/block/**'],
     [('copies taken before loops that delete', 'udapi/core/block.py Block.process_document, udapi/block/**'),
      ('ListOfNodes snapshots', 'udapi/core/node.py ListOfNodes')],
     level_note='Aliasing is decided by access paths of bounded length: a removal through a path the analysis cannot '
                'relate to the visited collection is not reported.',
     technique='access-path alias analysis with in-place effect summaries over the call graph')

prop('C10', 'Writers leave standard output and garbage collection as they found them',
     'After a writer has processed a document, successfully or with an error at any point, standard output is again '
     'what it was before. Everything a writer prints before and after the document (headers and footers) goes to the same '
     'file as the document. Readers leave the garbage collector enabled or disabled as they found it, whether they '
     'finish, return early or fail.',
     ['crash points', 'configurations'], 'all writers and readers, all ways of selecting the output, all points of failure',
     'Tests run writers to a successful end on standard output; an error in between or an output file is what makes '
     'the difference.',
     ['udapi/core/basewriter.py', 'udapi/core/basereader.py', 'udapi/block/write/**'],
     [('redirection of standard output', 'udapi/core/basewriter.py BaseWriter'),
      ('gc switched off while reading', 'udapi/core/basereader.py BaseReader.process_document')],
     level_note='Every call is assumed to be able to fail; code run by the caller between the methods of one writer is '
                'outside the model.',
     technique='interprocedural typestate dataflow over normal and exceptional paths')

prop('C12', 'Every block can be loaded by its name and all its methods take part',
     'Every module of blocks offers a class whose lower-cased name is the module name, so that scenarios can load it. '
     'Running a block calls its set-up, processing and finishing methods in this order; each method the framework calls '
     'accepts the arguments the framework passes, an overridden set-up or finishing method always runs the inherited '
     'one where that does something, and no process_* method of a block is left without anybody calling it.',
     ['configurations', 'inputs'], 'all blocks of the library',
     'Tests run a handful of the roughly 200 blocks; a hook that is never called makes a block silently do nothing.',
     ['udapi/core/block.py', 'udapi/core/run.py', 'udapi/block/**'],
     [('dispatch of process_* methods', 'udapi/core/block.py Block.process_document'),
      ('loading of blocks by name', 'udapi/core/run.py _import_blocks')],
     level_note='Reachability of hooks is decided on calls made on self; conditions under which a reachable hook is '
                'skipped are not decided.',
     technique='override/protocol analysis with must-call path dataflow and dispatch reachability')

prop('C23', 'Objects and documents never influence each other through shared state',
     'Changing one node, document, block or other object never changes another one through something the library '
     'created once and shares: default argument values, tables and objects stored in classes or modules are neither '
     'changed in place, nor rebound, nor handed out to several objects that can change them. Results for a document '
     'therefore do not depend on what was processed earlier in the same process.',
     ['histories', 'operation sequences'], 'all functions of the library and all sequences of calls in one process',
     'Leaks between calls show only when a second object or document is processed in the same process.',
     ['udapi/core/*.py', 'udapi/block/**'],
     [('default values, class-level tables and module-level objects', 'udapi/core/*.py, udapi/block/**')],
     level_note='Follows access paths of bounded length; objects reached through containers of unknown content are not '
                'followed. The counter of loaded documents in coref.py is allowed because it only grows.',
     technique='escape and in-place-effect analysis of shared mutable values over the call graph')

prop('C17', 'Text of the document cannot break the HTML, XML, JSON or TeX it is written into',
     'In the HTML, XML, JSON-in-script and TeX output of the writers, forms, lemmas, tags, features, identifiers, sentences, '
     'comments and other text of the document are shown as they are: whatever characters they contain, they never start or end '
     'a tag, an attribute value, a string, a script or a TeX group, and they are escaped exactly once. Tags, quotes, scripts and '
     'strings opened by a writer are closed in the same file.',
     ['inputs'], 'all writers of markup and all texts in a document',
     'Test data contain ordinary words; a quote, backslash, "<", "&" or "%" in the wrong attribute is what matters.',
     ['udapi/block/write/html.py', 'udapi/block/write/sentenceshtml.py', 'udapi/block/write/textmodetreeshtml.py',
      'udapi/block/write/corefhtml.py', 'udapi/block/write/treex.py', 'udapi/block/write/tikz.py'],
     [('escaping at the place of printing', 'udapi/block/write/*.py')],
     level_note='Escaping functions are judged by the characters they replace; values that come from parameters of the '
                'block (paths, titles) are trusted; control characters in values are not considered.',
     technique='character-set taint analysis by abstract interpretation composed with a markup lexer')

prop('C06', 'Queries, string views, writers and evaluation never modify the document',
     'Asking a node, tree, bundle, document, mention or entity for anything (properties, tests of position or relation, '
     'lists of nodes, computed text, addresses, printing or serialising it) leaves the document as it was. So do all writers, '
     'the evaluation blocks and the blocks that only print statistics: whatever they do with the data, later blocks see the '
     'same document, apart from the coreference annotation being stored into MISC in the way it is written to files.',
     ['inputs', 'histories'], 'all queries, writers, evaluators and reporting blocks, and all documents',
     'A query that changes what it looks at gives the right answer the first time; the damage is seen elsewhere, later, and '
     'only with particular data.',
     ['udapi/core/*.py', 'udapi/block/write/*.py', 'udapi/block/eval/*.py', 'udapi/block/util/see.py',
      'udapi/block/corefud/stats.py'],
     [('computed properties and query methods of the data model', 'udapi/core/*.py'),
      ('process_* methods of writers and evaluators', 'udapi/block/write/*.py, udapi/block/eval/*.py')],
     level_note='Internal caches (synchronised string views, empty mappings made on demand, sorted mention words, sent_id) are '
                'listed and left out; objects of unknown origin and computed attribute names are not followed; user '
                'expressions given as parameters may do anything.',
     technique='interprocedural side-effect analysis over access paths')

prop('C18', 'Mentions, their words, their heads and their entities always refer to each other',
     'After creating mentions, changing their words, span, head or entity and removing mentions, in any order, a mention is '
     'listed exactly once among the mentions of each of its words and of no other node, and exactly once by its entity and by '
     'no other entity. Its head is one of its words and no word occurs in it twice. Nodes that were removed from the tree are '
     'words of no mention.',
     ['operation sequences', 'inputs'], 'all mention-editing operations with all relations between old and new words, head and entity',
     'The links are stored redundantly in nodes, mentions and entities; only particular overlaps of old and new words expose a '
     'forgotten update.',
     ['udapi/core/coref.py', 'udapi/core/node.py', 'udapi/core/document.py'],
     [('word, head, span and entity setters, create_mention and remove', 'udapi/core/coref.py')],
     level_note='Decided for each operation from an arbitrary consistent document; words are tracked individually up to three per '
                'mention, other nodes, mentions and entities are summarised. Loading from files and direct changes of private '
                'lists are not covered.',
     technique='abstract interpretation with heap summarisation')

prop('C22', 'Multiword tokens, their words and their tree always refer to each other',
     'After creating and removing multiword tokens, moving words to another tree, re-attaching and flattening, in any order, a '
     'word refers to a multiword token exactly if that token lists the word, and no word belongs to two tokens. Each token is '
     'listed exactly once in the tree its words belong to and knows that tree; removed tokens and removed words are in no tree '
     'and no token.',
     ['operation sequences', 'inputs'], 'all operations on tokens and their words, with all relations between moved words and tokens',
     'The links are stored redundantly in words, tokens and trees; only partly overlapping or partly moved tokens expose a '
     'forgotten update.',
     ['udapi/core/mwt.py', 'udapi/core/root.py', 'udapi/core/node.py'],
     [('create_multiword_token and steal_nodes', 'udapi/core/root.py'), ('MWT constructor and remove', 'udapi/core/mwt.py')],
     level_note='Decided for each operation from an arbitrary consistent tree, for tokens of up to three tracked words; editing '
                'mwt.words directly is documented as unsupported and not covered.',
     technique='abstract interpretation with heap summarisation; paired-update check of direct writers')

prop('C25', 'The number of a word is always its position in its sentence',
     'After creating, removing, re-attaching, flattening or transferring words in any order, the words of every tree involved '
     'are numbered 1, 2, 3, ... in the order in which the tree lists them. A move in the word order puts the moved words '
     'at the place asked for, keeps the order of all others and renumbers both. Reading a sentence whose word IDs are not consecutive fails with an error instead of '
     'producing wrong numbers.',
     ['operation sequences', 'inputs'], 'all trees, all operations on all words of them, all CoNLL-U input',
     'Numbers are updated incrementally by each operation for only the words it thinks are affected; the tests check a few trees, '
     'mostly without words on the other side.',
     ['udapi/core/node.py', 'udapi/core/root.py', 'udapi/block/read/conllu.py', 'udapi/block/read/conll.py'],
     [('renumbering in remove, create_child, steal_nodes', 'udapi/core/node.py, udapi/core/root.py'),
      ('in-place shifting', 'udapi/core/node.py Node._shift_before_ord')],
     level_note='Creating, removing, re-attaching, flattening and transferring are decided for arbitrary numbers of unknown words '
                'before, between and after the tracked ones. Moves in the word order are decided for all moves in three trees of '
                'seven to nine words (contiguous and non-projective subtrees), with contents symbolic; numbers of empty nodes belong '
                'to another property.',
     technique='abstract interpretation with symbolic positions; paired-update analysis of writes to the word list')

prop('C27', 'Numbers in the input that refer to words are resolved exactly or rejected',
     'When trees are read, a head, a multiword token range, an enhanced dependency or the head index of a mention whose number '
     'does not denote a word it may refer to is never resolved to another word: numbers are not counted from the end of the '
     'sentence and ranges are not cut to the words that exist. Such input is reported, or the reference is left out.',
     ['inputs'], 'all input files, in all formats the library reads',
     'Python accepts negative indices and oversized slices silently, so malformed input yields a plausible but wrong tree; the '
     'tests read well-formed files.',
     ['udapi/block/read/**', 'udapi/core/node.py', 'udapi/core/coref.py'],
     [('heads and token ranges', 'udapi/block/read/conllu.py, conll.py, vislcg.py'), ('enhanced dependencies',
       'udapi/core/node.py Node.deps'), ('mention heads', 'udapi/core/coref.py load_coref_from_misc')],
     level_note='Sound for numbers converted by int() or float() and passed through variables, containers, parameters and '
                'results; that an index beyond the end raises an error is left to Python. Numbers used as dictionary keys or '
                'compared with word numbers are not followed.',
     technique='interprocedural taint analysis with path-sensitive range checks')


prop('C15', 'Reading neither loses nor duplicates sentences',
     'Every sentence of the input files, and every line of it, ends up exactly once and in the order of the input in the documents '
     'that are read, however the input is divided into documents and files and however many empty lines separate the sentences or '
     'end a file. Only the limits set by the user (sent_id_filter, max_docs) leave sentences out. Reading is finished only when '
     'there are no more files.',
     ['inputs', 'histories of reading several documents'], 'all readers, all input files, all combinations of reader parameters',
     'Sentences are buffered between documents and end at empty lines, file ends or document starts; the tests read few '
     'well-formed files with default parameters.',
     ['udapi/core/basereader.py', 'udapi/block/read/**'],
     [('buffering between documents', 'udapi/core/basereader.py BaseReader.process_document'),
      ('loading files at once', 'udapi/core/basereader.py BaseReader.try_fast_load'),
      ('ends of sentences', 'udapi/block/read/conllu.py, vislcg.py, text.py, sentences.py')],
     level_note='Decided for the functions of the readers over all their paths. That the words of one line become one word, and '
                'how the whole content of a file is split by regular expressions, is not decided.',
     technique='typestate analysis over all paths of the reader functions')


prop('C02', 'Enhanced dependencies and empty nodes follow their words',
     'After words are removed, moved or transferred to another tree, and after empty nodes are created or removed, every enhanced '
     'dependency refers to the same node as before; only dependencies on nodes that left the tree disappear. Every empty node stays '
     'after the same word (or after the word before it, if that word was removed or moved away), the empty nodes keep their order, '
     'and no two of them get the same number, however many follow one word. The string and the list of enhanced dependencies '
     'always show the same.',
     ['operation sequences', 'inputs'], 'all structural operations on trees with empty nodes and enhanced dependencies',
     'Dependencies are stored as numbers until they are first looked at, and numbers of empty nodes are fractions; the tests have few '
     'trees with empty nodes and edit none of them.',
     ['udapi/core/node.py', 'udapi/core/root.py'],
     [('reading and writing of enhanced dependencies', 'udapi/core/node.py Node.deps, Node.raw_deps'),
      ('numbers of empty nodes', 'udapi/core/node.py EmptyNode, OrdTuple, Node.create_empty_child, Node.remove'),
      ('transfer of words', 'udapi/core/root.py Root.steal_nodes')],
     level_note='Decided for all removals, moves and transfers of one or two (or all but one) words in a tree of eight words with four '
                'to six empty nodes, with word positions as constants and all contents symbolic.',
     technique='abstract interpretation with constant positions and symbolic contents, compared with a ghost map')


prop('C08', 'CoNLL-U text that is read and written again stays as it was',
     'Reading valid CoNLL-U and writing it again yields the same text, whether a file is read at once or divided into documents: '
     'every column of every word, empty node and multiword token, all comments (JSON comments come last), identifiers, zones, document '
     'boundaries and the order of the lines; only missing sent_id and text comments are added. Looking up features, MISC or enhanced '
     'dependencies in between changes nothing. Options of the writer leave out only the comments or empty sentences they name.',
     ['inputs'], 'all layouts of words, empty nodes, multiword tokens and comments, with any contents',
     'The tests round-trip a few files; columns, comments and their order are handled by many separate branches.',
     ['udapi/block/read/conllu.py', 'udapi/block/write/conllu.py', 'udapi/core/basereader.py', 'udapi/core/dualdict.py',
      'udapi/core/document.py', 'udapi/core/bundle.py', 'udapi/core/mwt.py', 'udapi/core/node.py'],
     [('reading of lines and comments', 'udapi/block/read/conllu.py Conllu.read_tree_from_lines, parse_comment_line'),
      ('writing', 'udapi/block/write/conllu.py Conllu.process_tree'),
      ('identifiers and bundles', 'udapi/core/basereader.py BaseReader.process_document, try_fast_load')],
     level_note='Decided for enumerated layouts (each column filled alone and left out alone, all token and empty-node layouts and all trees '
                'of up to three or four words, all orders of up to three kinds of comments around sent_id and text, seven ways of '
                'reading) with the contents opaque.',
     technique='abstract interpretation over text with opaque contents: provenance of every column and comment from input to output')


prop('C19', 'Numbers, identifiers and zones of sentences stay consistent',
     'After any sequence of creating, adding, moving, renaming and removing bundles and trees (directly, by reading, or by the blocks that '
     'split, join, segment or renumber sentences), every bundle has its 1-based position as its number, sent_id and address of each '
     'tree and node agree with the bundle and the zone, zones in a bundle differ, and each tree is in exactly the bundle it says. A new '
     'bundle never gets an identifier that is in use, and an operation that is rejected changes nothing.',
     ['operation sequences'], 'all sequences of operations on documents, bundles and trees',
     'Identifiers are stored in bundles and in trees, and numbers and owners in several places that each operation must keep in step; '
     'the tests hardly use anything but reading.',
     ['udapi/core/bundle.py', 'udapi/core/document.py', 'udapi/core/root.py', 'udapi/block/util/**', 'udapi/block/segment/**', 'udapi/block/udpipe/base.py'],
     [('bundles', 'udapi/core/bundle.py Bundle.add_tree, Bundle.remove'), ('trees', 'udapi/core/root.py Root.sent_id, Root.zone, Root.remove'),
      ('new bundles', 'udapi/core/document.py Document.create_bundle'),
      ('blocks', 'udapi/block/util/split.py, splitsentence.py, joinsentence.py, segment/simple.py, merge.py, udpipe/base.py')],
     level_note='Decided for all sequences of two (thorough: three) operations from six starting documents, with up to three bundles and four '
                'trees added, and for 23 configurations of blocks on four documents. Bundles that the user creates without a document are '
                'not covered.',
     technique='abstract interpretation: exploration of all sequences of operations on bundles and trees, merged by canonical heaps')


prop('C09', 'What a tree says about itself agrees with its edges and word order',
     'For every tree: children, descendants, siblings (also with add_self, preceding_only and following_only), neighbours, order '
     'comparisons, is_descendant_of, is_leaf, is_nonprojective, is_nonprojective_gap, the pseudo-attributes of get_attrs and '
     'find_minimal_common_treelet give exactly what the heads and word numbers define, sorted by word order. compute_text, get_sentence '
     'and token_descendants contain each word or multiword token once and in order, joined with spaces except after SpaceAfter=No.',
     ['inputs'], 'all trees and all their nodes, multiword tokens included',
     'The queries climb and scan trees in optimized ways; the tests ask a few of them on two trees.',
     ['udapi/core/node.py', 'udapi/core/root.py', 'udapi/core/mwt.py'],
     [('queries', 'udapi/core/node.py Node.children, Node.descendants, ListOfNodes, Node.is_nonprojective, Node.is_nonprojective_gap'),
      ('attributes', 'udapi/core/node.py Node.get_attrs'), ('treelets', 'udapi/core/node.py find_minimal_common_treelet'),
      ('texts', 'udapi/core/node.py Node.compute_text; udapi/core/root.py Root.token_descendants, get_sentence')],
     level_note='Decided for all trees of up to four words (thorough: a third of those of five words, too) and all layouts of up to two '
                'multiword tokens, with the forms opaque. Empty nodes are not asked.',
     technique='abstract interpretation with constant tree shapes and opaque contents, compared with the definitions')


prop('C20', 'Projectivization makes every tree projective and can be undone',
     'After transform.Proj no edge is non-projective, whatever the lifting order and the label. Each word hangs on its former head or on '
     'an ancestor of it, no projective tree is changed, and a single non-projective word is lifted only as far as needed. Exactly the '
     'moved words are marked, with the relation of their former head. transform.Deproj moves only marked words, to a word '
     'with that relation, and restores a tree with one lifted word and unique relations; relations are restored always. '
     'transform.Flatten attaches all words to the root, or with oneroot to the first word.',
     ['inputs'], 'all trees, all parameters',
     'Lifting one word can make another edge non-projective; the tests do not run these blocks.',
     ['udapi/block/transform/**', 'udapi/core/node.py'],
     [('lifting', 'udapi/block/transform/proj.py Proj.process_tree, Proj.lift, Proj.mark'), ('restoring', 'udapi/block/transform/deproj.py Deproj'),
      ('flattening', 'udapi/block/transform/flatten.py Flatten.process_tree')],
     level_note='Decided for trees of up to five words (quick: all of up to three and the non-projective ones of four words, a third of the '
                'non-projective ones of five), with relations opaque: all different, with subtypes, all equal.',
     technique='abstract interpretation with constant tree shapes and opaque relations, compared with the definition of projectivity')


prop('C13', 'Coreference annotation that is stored and loaded again stays as it was',
     'When the coreference annotation of a document is stored into MISC and loaded again, every entity has the same identifier, type and '
     'split antecedents, and every mention the same words (continuous or not, with empty nodes or not), head, attributes and bridging '
     'links, whatever other mentions share, contain or cross its span. Storing changes no entity, and storing again yields the same text. '
     'The order of the brackets at a word does not matter for loading. Only what the format cannot express is excepted: mentions of one '
     'entity that cross, have the same (sub)span, or are both discontinuous and overlap.',
     ['inputs'], 'all sets of mentions, all headers (global.Entity)',
     'Positions of brackets, head numbers, subspans and optional fields depend on each other; the tests use a handful of files.',
     ['udapi/core/coref.py', 'udapi/core/document.py'],
     [('storing', 'udapi/core/coref.py store_coref_to_misc'), ('loading', 'udapi/core/coref.py load_coref_from_misc, BridgingLinks.from_string'),
      ('spans', 'udapi/core/coref.py nodes_to_span, span_to_nodes'), ('order', 'udapi/core/coref.py CorefMention.__lt__, CorefMentionSubspan')],
     level_note='Decided for sentences of up to five words and empty nodes with one mention (every set of words, every head), two mentions of one '
                'or two entities, many triples, and layouts with bridging, split antecedents, attributes and headers; types, relations and '
                'values of attributes are opaque, identifiers constant.',
     technique='abstract interpretation with constant positions and opaque types, relations and values, compared with what was stored')


prop('C21', 'A scenario runs as it is written',
     'Every parameter of a scenario belongs to the block before it; its first "=" separates name and value, and only decimal numbers become '
     'integers. All blocks are started once, applied to each document in the order of the scenario, until all readers are finished, and '
     'ended once; without a reader read.Conllu is the first block. A block visits every bundle, tree, word, empty node, '
     'entity or mention for which it defines a method exactly once and in order, in the selected zones only, and treats empty trees as '
     'if_empty_tree says. util.Eval runs its code for exactly these objects; util.Filter keeps exactly the trees, subtrees or words that '
     'satisfy the condition. The options of udapy add the documented blocks after the scenario. Files are read in the order in which the '
     'pattern names them, and each document is written to the file that the writer\'s parameters say, completely.',
     ['inputs', 'histories'], 'all scenarios, documents and combinations of overridden methods',
     'Which method is called for what depends on the combination of overridden methods, zones, readers and files; the tests run a few '
     'scenarios with one reader.',
     ['udapi/core/run.py', 'udapi/core/block.py', 'udapi/core/files.py', 'udapi/core/basewriter.py', 'udapi/block/util/**', 'bin/udapy'],
     [('scenario', 'udapi/core/run.py _parse_command_line_arguments, _import_blocks, Run.run_blocks'),
      ('visits', 'udapi/core/block.py Block.process_document, Block._should_process_tree'), ('options', 'bin/udapy'),
      ('files', 'udapi/core/files.py Files; udapi/core/basewriter.py BaseWriter'),
      ('code in parameters', 'udapi/block/util/eval.py Eval; udapi/block/util/filter.py Filter')],
     level_note='Decided for scenarios of up to three blocks and readers of up to three documents, 12 ways of overriding methods on six '
                'documents, all conditions of util.Filter on trees of up to three (thorough: four) words, util.Eval with one or two '
                '(thorough: three) pieces of code, 47 command lines of udapy, and 45 layouts of input and output files; texts are opaque.',
     technique='abstract interpretation with constant scenarios and shapes and opaque texts, compared with the documented order and selection')


prop('C24', 'Writers show every word and every edge once and in order',
     'write.TextModeTrees and node.draw print one line for each word and empty node of each selected tree or subtree, in word order and with '
     'the chosen attributes, and the lines they draw connect each word with its head and with nothing else, in every layout and with every '
     'option; projective trees are drawn without crossings, and the layouts align attributes and keep edges left of the words as '
     'documented. write.TextModeTreesHtml prints the same drawings. write.Sdparse, write.Tikz, write.Treex and write.Html write each word '
     'once and exactly the relations of the tree, with unique identifiers; write.Sentences and write.SentencesHtml write each selected '
     'sentence once. Attributes that are not set do not stop a writer. What write.Vislcg writes is read again by read.Vislcg: the same words, features, relations and multiword tokens.',
     ['inputs'], 'all trees, layouts and options',
     'A drawing depends on the whole tree, its crossings, the widths of its words, the layout and the order in which nodes are drawn; the '
     'tests compare the drawings of a few sentences.',
     ['udapi/block/write/**', 'udapi/block/read/vislcg.py', 'udapi/core/node.py', 'udapi/core/root.py'],
     [('drawings', 'udapi/block/write/textmodetrees.py TextModeTrees.process_tree, TextModeTrees.add_node; udapi/core/node.py Node.draw'),
      ('HTML', 'udapi/block/write/textmodetreeshtml.py TextModeTreesHtml.process_bundle; udapi/block/write/html.py Html'),
      ('relations', 'udapi/block/write/sdparse.py Sdparse; udapi/block/write/tikz.py Tikz; udapi/block/write/treex.py Treex'),
      ('VISL CG', 'udapi/block/write/vislcg.py Vislcg; udapi/block/read/vislcg.py Vislcg')],
     level_note='Decided for all trees of up to four words (thorough: a part of those of five) with and without empty nodes and eleven '
                'settings of the drawings (for trees of three and four words four of them each, thorough: all), all subtrees, 17 selections of zones and marked trees, '
                'and the other writers on all trees of up to three words (a part of four; thorough: all) with their options.',
     technique='abstract interpretation with constant tree shapes and opaque contents; the output is decoded and compared with the tree')


prop('C07', 'Tokens, spacing and the text of a sentence say the same',
     'Cutting text into sentences (segment.Simple) and tokens (tokenize.OnWhitespace, tokenize.Simple) loses, adds and reorders no character, '
     'with keep_spaces not even a space, and marks SpaceAfter=No exactly where no space is. ud.SetSpaceAfterFromText, ud.GoeswithFromText and '
     'read.AddText make the tokens spell the given text and change nothing else. After ud.ComplyWithText with fix_text the text is what the '
     'tokens spell, a text that had to be replaced is kept in a comment, a text that differs in spaces only is not replaced, and only '
     'punctuation may be deleted; without fix_text the text never changes. ud.SetSpaceAfter changes only the spacing, in each sentence as if '
     'it were the only one. Joining and splitting tokens (ud.JoinAsMwt, ud.JoinToken, ud.AddMwt, ud.SplitUnderscoreTokens, ud.FixMwtSpace) '
     'and sentences (util.SplitSentence, util.JoinSentence, segment.Merge) keeps all words in order, their edges and what they spell.',
     ['inputs'], 'all texts, tokens, spaces, trees and options',
     'Tokens are aligned with text character by character; what goes wrong depends on where spaces and punctuation meet, at the ends of '
     'the sentence most of all. The tests run these blocks on no or one sentence.',
     ['udapi/block/tokenize/**', 'udapi/block/segment/**', 'udapi/block/ud/*.py', 'udapi/block/util/**', 'udapi/block/read/addtext.py',
      'udapi/core/root.py'],
     [('tokens', 'udapi/block/tokenize/onwhitespace.py OnWhitespace.process_tree; udapi/block/tokenize/simple.py'),
      ('sentences', 'udapi/block/segment/simple.py Simple; udapi/block/segment/merge.py Merge; udapi/block/util/splitsentence.py; '
       'udapi/block/util/joinsentence.py'),
      ('alignment', 'udapi/block/ud/complywithtext.py ComplyWithText; udapi/block/ud/setspaceafterfromtext.py; udapi/block/ud/goeswithfromtext.py; '
       'udapi/block/read/addtext.py AddText.process_document'),
      ('tokens joined and split', 'udapi/block/ud/addmwt.py AddMwt.process_node; udapi/block/ud/joinasmwt.py; udapi/block/ud/jointoken.py; '
       'udapi/block/ud/splitunderscoretokens.py; udapi/block/ud/fixmwtspace.py; udapi/block/ud/setspaceafter.py')],
     level_note='Decided for all texts of up to five (thorough: six) letters, spaces and full stops, up to three (thorough: four) tokens with every '
                'spacing, all trees of up to three (thorough: four) words for the sentences, and for ud.ComplyWithText on a part (thorough: '
                'all) of the pairs of up to three tokens and texts of up to four (five) characters; different letters are opaque and have no '
                'case, the difflib alignment is computed as documented.',
     technique='abstract interpretation with constant shapes of text over opaque letters, compared with the text that was given')
