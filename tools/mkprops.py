#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a generator so that the file stays consistently formatted).
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=list(observe),hook_needed=None)))
T="internal/triplestore/"
p("C01","Identifiers behave like fixed-width unsigned integers",
 "Identifiers behave like unsigned integers of a fixed width: incrementing yields the next larger number (and panics instead of wrapping around), zero is the only invalid identifier, and both comparison and the byte order of encodings agree with numeric order. Decoding what was encoded gives back the same identifiers for every supported form (single, list, i-th element, into destinations, gob, integer), touches no other bytes or identifiers, and input that is too short is rejected with an error by the marshalling functions.",
 ["inputs"],"every identifier value, every list of identifiers, every destination/source buffer length",
 "The tests sample small identifiers and a handful of lists; carries across several bytes, values near the maximum, long lists and undersized buffers are never all reached.",
 [T+"impl/id.go"],[("big-endian carry loop","ID.Inc"),("big-endian copy","ID.Encode / ID.Decode"),("length checks before decoding","MarshalIDs / UnmarshalID / UnmarshalIDs"),("lexicographic comparison","ID.Compare")],
 [("ID.data","big endian value of the identifier",T+"impl/id.go")])
p("C02","Stored triple records survive encoding",
 "Every identifier pair and every stored triple record (its role and all three pairs of identifiers) is unchanged after being marshalled and unmarshalled again. Two different records never share an encoding, and a source that is too short yields an error instead of a partial or panicking read.",
 ["inputs"],"all records (role, six identifiers) and all source lengths",
 "Only the engines' happy paths use the codec, with a few thousand similar records; swapped or overlapping positions for rare records stay invisible.",
 [T+"igraph/triple.go",T+"imap/imap.go"],[("fixed layout: role byte, literals, canonicals","MarshalTriple / UnmarshalTriple"),("two consecutive ids","TripleID.Marshal / Unmarshal")])
p("C03","Memory and disk key-value stores are the same finite map",
 "For any sequence of operations both the in-memory and the on-disk key-value store behave as one finite map: a lookup returns the last value set for exactly that key (or reports absence and a zero value), deletion removes only that key, counting gives the number of keys, and iteration visits every entry exactly once and stops at, and returns, the first error of the callback. No operation affects any other key or any other store.",
 ["inputs","histories"],"all keys and values (including empty strings and zero ids), all operation sequences, both engines",
 "Tests only exercise the stores indirectly through one insertion pattern with decimal labels; they never compare arbitrary histories against a map.",
 [T+"imap/memory.go",T+"imap/map_disk.go",T+"imap/map_memory.go",T+"igraph/engine_disk.go",T+"igraph/engine_memory.go"],[("go map wrapper","imap.Memory"),("leveldb wrapper with per-type codecs","imap.DiskStorage, DiskMap, DiskEngine")])
p("C04","Labels are interned to unique, stable, invertible identifiers",
 "Adding a label for the first time returns a fresh, valid identifier that was never handed out before by the same map (neither for a label nor as a bare identifier); adding or looking up the same label again returns exactly the same result and changes nothing. Looking up an identifier returns exactly the label it was created for, unknown labels and identifiers yield the zero value, and lookups never modify the map.",
 ["inputs","histories"],"all label sets and all interleavings of add, lookup, reserve, identify",
 "Tests insert decimal strings in one fixed pattern; uniqueness and invertibility are statements about all histories.",
 [T+"imap/imap.go"],[("counter + forward and reverse map","IMap.AddNew"),("bare identifiers","IMap.Next")],
 [("IMap.forward","label to (canonical, literal)",T+"imap/imap.go"),("IMap.reverse","literal id to label",T+"imap/imap.go"),("IMap.id","last identifier issued",T+"imap/imap.go")])
p("C05","Identification of labels is an equivalence with one representative",
 "After any sequence of identifications two labels have the same canonical identifier if and only if they are connected by identified pairs, and identifying (new, old) keeps the canonical identifier of new's class for the merged class. The literal identifier of every label and the label of every identifier stay unchanged, and the exported identity map contains exactly the labels whose representative is another label, mapped to that representative.",
 ["inputs","histories"],"all sequences of additions and identifications, in any order and direction, including chains, cycles and repeated pairs",
 "The tests identify disjoint neighbouring pairs only; chains, merges of two non-trivial classes and self-identification are not covered.",
 [T+"imap/imap.go"],[("re-pointing of the whole alias class","IMap.MarkIdentical"),("canonical vs literal","TripleID"),("IdentityMap","IMap.IdentityMap")])
p("C06","Triple stores keep one label per triple and list neighbours in order",
 "Memory and disk triple stores behave as one map from (a,b,c) to a label: adding a new triple stores the given label, adding an existing triple asks the conflict function with (old, new) in that order and stores its answer, and a failing conflict function leaves the stored label unchanged. After finalization, fetching (a,b) visits exactly the stored third components of that pair, each once, in ascending identifier order with its label, stops at the first callback error and returns it; membership and counts agree with the same map.",
 ["inputs","histories"],"all insertion sequences, conflict outcomes and queries, on both engines",
 "Tests use one regular grid of triples; order independence, conflicts, prefix boundaries between identifiers and error paths are not sampled.",
 [T+"igraph/engine_memory.go",T+"igraph/engine_disk.go"],[("nested maps with sorted keys","ThreeHash"),("leveldb keys with prefix iteration","ThreeDiskHash")])
p("C07","The graph index answers exactly what was inserted",
 "Every inserted object triple and data triple can be found from subject and from object under the canonical identifiers, and nothing else can be found except the inverse (object, inverse predicate, subject) of each inserted triple whose predicate has a declared inverse. A stored triple reports the literal labels of the source, the canonical labels, its value and language and why it was stored; a directly stated triple always wins over an inferred one, and re-inserting a triple changes no answer.",
 ["inputs","histories"],"all graphs, identities, inverses and insertion orders",
 "The tests build one synthetic graph; conflict resolution between stated and inferred triples and literal/canonical mix-ups need particular overlaps of identities, inverses and duplicates.",
 [T+"igraph/index.go"],[("two mirrored indexes","Index.insert"),("role based conflict resolution","Index.resolveLabelConflict"),("inverse insertion","Index.AddTriple / MarkInverse"),("data nodes","Index.AddLangData"),("lookup","Index.Triple")])
p("C08","Finalization and reset are respected",
 "Once an index has been finalized, every further modifying operation (adding triples or data, identifying labels, declaring inverses, compacting, finalizing again) is rejected with an error and changes no later answer, and so is adding or identifying labels in a finalized label map or finalizing it again, while lookups keep working. Resetting yields an empty, usable structure without any state of its previous life, closing may be repeated, and statistics count what was really inserted or masked.",
 ["histories"],"all operation sequences around finalize, reset and close",
 "No test calls a modifying operation after finalization or resets a used index.",
 [T+"igraph/index.go",T+"imap/imap.go"],[("atomic finalized flag checked first","Index.AddTriple, AddLangData, MarkIdentical, MarkInverse, Compact, Finalize; IMap.Add, AddNew, MarkIdentical, Finalize"),("Reset re-initialises every field","Index.Reset, IMap.Reset")])
p("C09","Restricting the index to the pathbuilder never changes answers",
 "Building the index with the pathbuilder as a mask yields, for every path of the pathbuilder, exactly the same values, nodes and entities as building it without a mask. This includes predicates that are only connected to the pathbuilder by declared identities or inverses, and field values that are URIs instead of literals.",
 ["inputs","configurations"],"all datasets and pathbuilders with alternating path arrays, with identity and inverse declarations",
 "No test builds an index with a mask.",
 ["internal/sparkl/index.go",T+"igraph/index.go"],[("predicate and data masks from the pathbuilder","setMask, addBundleToMasks, addPathArrayToMasks"),("mask lookup","Index.addMask, SetPredicateMask, SetDataMask")])
p("C10","Path queries return exactly the matching walks",
 "A path query returns exactly the walks of the graph that start at a node with the required relation to the starting object, follow the requested edges one after the other, and satisfy every required end condition along the way - every such walk once and no other. Each returned path lists its nodes, edges and justifying triples in walk order (for every node the triples of its end conditions, the last one first, then the triple leading to it), and reports the literal value and language if it ends in data and the last node otherwise.",
 ["inputs"],"all finite graphs and all sequences of extension and restriction steps",
 "The tests query a single regular graph with two shapes of paths.",
 [T+"igraph/paths.go"],[("stream transformers","Index.PathsStarting, Paths.expand, Paths.restrict"),("reversal","Paths.makePath, newPath"),("Path.Value","Path.Value")])
p("C11","Every statement of the source reaches the index",
 "Every quad of the source whose subject and predicate are resources becomes exactly one triple or one data value (with its exact lexical value and language) in the index, independent of statement order, of blank lines and comments and of the compaction interval. All identity statements take effect before any inverse declaration, and all inverse declarations before any triple, wherever they occur in the source, and reading a source several times yields the same statements each time.",
 ["inputs","configurations"],"all nquad inputs, statement orders, sets of special predicates and compaction intervals",
 "No test reads an nquad file or builds an index from a source.",
 ["internal/sparkl/index.go","internal/sparkl/index_source.go"],[("three passes","MakeIndex: indexSameAs, indexInverseOf, indexData"),("token reader","QuadSource.Next / Open")])
p("C12","Extraction attaches every value to the right entity",
 "For every bundle exactly the entities matching its path are extracted, every field value found for an entity is attached to that entity under that field with its language and path and to no other, and every child entity is attached to the parent on its own path under its bundle. In-memory and on-disk extraction give the same entities, fields and children, and the result does not depend on scheduling.",
 ["inputs","schedules","configurations"],"all pathbuilders and datasets in which a child entity lies below a single parent, both storage engines, all goroutine schedules",
 "No test runs the extraction at all; sharing or mixing state between entities, fields or goroutines needs multi-entity data and particular schedules.",
 ["internal/sparkl/context.go","internal/sparkl/storages/memory.go","internal/sparkl/storages/disk.go","internal/sparkl/storages/entity.go"],[("staged extraction","Context.Store"),("lookup by uri","storages.Memory"),("read-modify-write under lock","storages.Disk.update"),("pooled entities are reset","sEntityPool")])
p("C13","Failures are reported, never turned into partial success",
 "If reading the source or the pathbuilder, or any read, write, compaction, finalization or iteration of a storage, exporter or output fails, then building an index, extracting entities, exporting and importing return a non-nil error. None of these operations reports success with silently missing data.",
 ["fault_sequences"],"every single failing operation at every point, for both engines' abstractions, the source, the exporter and the output",
 "The tests never inject a failure.",
 ["internal/sparkl/index.go","internal/sparkl/context.go","internal/sparkl/pathbuilder.go",T+"igraph/index.go",T+"imap/imap.go","internal/glass/glass.go","internal/sparkl/exporter/sql.go"],[("error checks after every fallible call","everywhere"),("Context.reportError","context.go"),("gErr/errOnce","Export")])
p("C14","Exporters see every entity once, framed by begin and end",
 "When data is exported every top-level bundle is announced exactly once before any of its entities with the correct number of entities, every extracted entity of it is handed over exactly once and completely, its end is signalled exactly once after its last entity, and the exporter is closed exactly once after everything else, also when something fails. The map exporter then holds exactly these entities per bundle, under any interleaving of bundles.",
 ["inputs","schedules","fault_sequences"],"all pathbuilders and datasets, all interleavings, failure of any exporter call",
 "No test exercises an exporter.",
 ["internal/sparkl/pathbuilder.go","internal/sparkl/exporter/map.go","internal/sparkl/exporter/exporter.go"],[("per-bundle goroutine with deferred End","Export"),("locked map","exporter.Map")])
p("C15","SQL export writes every row exactly once within the limits",
 "For any batch size and query variable limit that permit at least one row, exporting to SQL creates the tables of every bundle (and field table if requested) and inserts one row per entity and nested child with its uri, parent and field values (joined by the separator, NULL if empty, or one row per value in field tables), each exactly once and in order. No single insert exceeds the limits, and exporting again replaces the previous contents.",
 ["inputs","configurations"],"all entities, nesting depths, value counts, batch sizes and variable limits",
 "No test touches the SQL exporter; off-by-one errors only show when counts meet batch and chunk boundaries.",
 ["internal/sparkl/exporter/sql.go"],[("batching","SQL.Add / SQL.End"),("chunking","SQL.execInsert"),("row construction","SQL.insertBundleTable, insertFieldTables, insertChildTables")])
p("C16","Cache lookups agree with the extracted data",
 "For the extracted entities and the identity map the cache returns exactly the entities of each bundle in order and the sorted bundle names; looking up an entity or its bundle succeeds for the entity's uri and every alias of it, and for nothing else, and returns precisely that entity. The canonical form of an alias is its representative and of every other known uri itself, and the aliases of a uri are exactly the labels whose representative it is.",
 ["inputs"],"all bundle contents and identity maps",
 "No test constructs a cache.",
 ["internal/sparkl/cache.go"],[("indexes by id","NewCache"),("lookups","Cache.Entity, Bundle, FirstBundle, Canonical, Aliases")])
p("C17","The triples of an entity are complete, unique and ordered",
 "The triples reported for an entity are exactly the triples that justify the entity itself, any of its field values or any of its descendants, each exactly once, in ascending order of identity. The result does not depend on map iteration order and computing it does not modify the entity.",
 ["inputs"],"all entity trees with arbitrarily shared triples",
 "No test computes the triples of an entity.",
 ["internal/wisski/entity.go"],[("collect, sort, compact","Entity.AllTriples, appendTriples")])
p("C18","RDF output states exactly the triples of the entity",
 "Exporting an entity as RDF writes exactly one statement per triple of the entity, in order, with the canonical (or, if requested, the original) subject, predicate and object; data triples are written as literals with exactly their value and language, including empty values, and object triples as resources. A triple that cannot be written yields an error.",
 ["inputs"],"all triples, both forms, both formats",
 "No test serializes a triple.",
 [T+"igraph/triple.go","internal/wisski/entity.go"],[("conversion","Triple.Triple"),("encoding loop","Entity.WriteAllTriples")])
p("C19","Streaming gob encoding round-trips",
 "Decoding a value that was encoded with the streaming encoder yields a value equal to the original for arbitrarily nested maps, slices and other encodable values, and consumes exactly what was written, so that several values can follow each other on one stream. Encoder and decoder failures and truncated input are reported as errors.",
 ["inputs","fault_sequences"],"all values of map, slice and scalar types, nested in any way, all truncation points",
 "Tests cover two flat collections and one nested map, without following values or failures.",
 ["pkg/sgob/sgob.go"],[("count followed by elements","encodeMap, encodeSlice, decodeMap, decodeSlice")])
p("C20","A standalone export reproduces the viewer data",
 "Importing a previously exported dataset reproduces the pathbuilder, the render settings, the bundles, every entity with its fields, children and triples, and all identities, so that every lookup gives the same result as before the export. A truncated or corrupted export, or one of another version, is rejected with an error.",
 ["inputs","fault_sequences"],"all datasets, settings, versions and truncation points",
 "No test exports or imports a dataset.",
 ["internal/glass/glass.go","internal/sparkl/cache.go",T+"imap/memory.go"],[("field order shared by encoder and decoder","Glass.EncodeTo/DecodeFrom, Cache.EncodeTo/DecodeFrom"),("version check","Glass.DecodeFrom")])
p("C21","The viewer serves no data before it is ready",
 "Until loading has finished, every page that depends on the dataset answers with the loading page or a service-unavailable JSON response (asking to retry) and does not touch the dataset; it never crashes. Afterwards every such request is answered from the loaded data, unknown bundles and entities are not found, and readiness is never withdrawn.",
 ["inputs","histories"],"all routes and requests before, during and after preparation",
 "No test sends a request.",
 ["internal/viewer/fallback.go","internal/viewer/viewer.go","internal/viewer/html.go","internal/viewer/json.go","internal/stats/status.go"],[("fallback guard at the top of every handler","htmlFallback, jsonFallback"),("Done flag","Stats.Done, Viewer.Prepare")])
p("C22","Pagination covers every entity exactly once",
 "For every limit and offset a bundle page lists exactly the entities at positions offset+1 to offset+limit (clipped to the total) in order, and states that range and the total correctly. Following the next links from the first page lists every entity exactly once; first, previous and last links are offered exactly when there are entities before respectively after the page and lead to the first, preceding and last page.",
 ["inputs"],"all totals, limits and offsets, including out of range and malformed ones",
 "No test renders a bundle page.",
 ["internal/viewer/html.go"],[("slicing and link arithmetic","htmlBundle, htmlBundleWithLimit")])
p("C23","Resolving any identifier of an entity leads to its page",
 "Resolving the uri of a known entity or any alias of it redirects to a link which, when followed, shows precisely that entity, whatever characters the uri contains (white space around it is ignored); wisski navigation links under any configured public url (with http or https) resolve the same way. Unknown identifiers are not found.",
 ["inputs","configurations"],"all uris (including reserved characters), aliases, bundles and public url lists",
 "No test resolves a uri; only uris with reserved characters expose escaping errors.",
 ["internal/viewer/html.go","internal/viewer/viewer.go","internal/sparkl/cache.go"],[("redirect targets","htmlEntityResolve, sendToResolver"),("public uris","RenderFlags.PublicURIS")])
p("C24","Only links into the original system are rewritten",
 "When html values are rendered, exactly the link and image targets that start with a configured public wisski url are rewritten to the local server, keeping path, query and fragment. All other targets and attributes and the text remain unchanged.",
 ["inputs","configurations"],"all html fragments and public url lists",
 "No test rewrites links.",
 ["internal/viewer/html.go","pkg/htmlx/htmlx.go"],[("prefix test and host removal","contextGlobal.ReplaceURL"),("tree walk","htmlx.ReplaceLinks, IterTree")])
p("C25","The content security policy is never weaker than configured",
 "Every response carries a content security policy that by default only permits the server's own scripts, styles, fonts and connections. Inline styles and media are only permitted if html rendering is enabled, images only if image or html rendering is enabled (and in strict mode only from the configured public urls), and frames only for a configured http(s) tipsy url.",
 ["configurations"],"all combinations of render flags and urls, all routes",
 "No test inspects response headers.",
 ["internal/viewer/viewer.go"],[("header construction","RenderFlags.CSPHeader"),("set before routing","Viewer.ServeHTTP")])
p("C26","Progress reporting never alters results",
 "Running an operation as a reported stage runs it exactly once and returns exactly its error, with any combination of absent, active or finished statistics, and reading or writing through a progress counter transfers exactly the same bytes and errors as without it while counting them. Finished statistics are never changed any more (except that a stage that was running is still completed), completed stages are recorded in order, and all methods accept absent statistics.",
 ["inputs","histories","fault_sequences"],"all operations sequences, errors, read and write results",
 "Two examples cover successful reads and writes only.",
 ["internal/stats/status.go","pkg/progress/progress.go"],[("DoStage","Stats.DoStage, Start, End"),("pass-through","progress.Reader.Read, progress.Writer.Write")])
p("C27","Inputs are located and parsed exactly",
 "A list of predicates separated by commas or newlines yields exactly the trimmed, non-empty entries in order. Locating the data sources yields exactly the two given regular files, or the single pathbuilder and the single dataset of a given directory, or the given export file where allowed, and an error in every other case.",
 ["inputs"],"all strings; all argument lists and directory contents",
 "No test covers either function.",
 ["internal/sparkl/sparkl.go","load.go"],[("split and trim","ParsePredicateString"),("FindSource","FindSource")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
