#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
C = "src/cas/"; F = "src/framework/"
T = "The existing tests "
p("P01", "Type system answers exactly reflect the declared hierarchy",
  "After any sequence of type and feature definitions, a type subsumes another exactly when it is that type or one of its declared ancestors, the appropriate features of a type are exactly those introduced by it or an ancestor, and name lookups, parents, direct subtypes, subtypes, range types, introducing types and string-value sets answer what was declared. Type names are unique, a feature name is unique along an ancestor chain, and final types (the primitives, the arrays and string subtypes) accept neither subtypes nor features. A rejected definition raises the documented error and changes nothing.",
  ["histories", "inputs"], "every sequence of accepted and rejected type/feature/string-subtype definitions, followed by every query over every pair of types and features",
  T+"query one fixed hierarchy and a handful of illegal definitions; they cannot cover all hierarchies, definition orders or all pairs.",
  [C+"lowlevel_typesystem.cpp", C+"typesystem.cpp"],
  [("createType / createTypeNoChecks / createStringSubtype", C+"lowlevel_typesystem.cpp"), ("createFeature", C+"lowlevel_typesystem.cpp"), ("subsumes, getSubsumedTypes, getParentType", C+"lowlevel_typesystem.cpp"), ("commit / computeApprop", C+"lowlevel_typesystem.cpp")])
p("P02", "Merged type systems are the union of their descriptions or are rejected",
  "Building a type system from a set of type-system descriptions (imports, delegates, repeated descriptions) yields exactly the union of the described types, features and allowed values, independently of the order in which compatible descriptions and types are listed. Descriptions that disagree on a type's supertype or a feature's range, or that name an unknown supertype or range, are rejected with an error and no type system is produced.",
  ["configurations"], "every set of type-system descriptions, every listing order of types, features and delegates",
  T+"merge a few fixed descriptors in a fixed order and never a contradictory set at every position.",
  [F+"typesystemdescription.cpp", F+"casdefinition.cpp", F+"taespecifier.cpp"],
  [("TypeSystemDescription::addTypeDescription / commit", F+"typesystemdescription.cpp"), ("mergeType / mergeTypeSystem", F+"casdefinition.cpp"), ("AnalysisEngineDescription::commit (mergeDelegateTypeSystems)", F+"taespecifier.cpp")])
p("P03", "A feature holds the last value written to it and nothing else changes it",
  "Reading any feature of any feature structure returns exactly the value last written to that feature of that structure, bit-for-bit for every primitive type, string and reference, and the type's default (0, false, null, unset) before any write, no matter how many other structures were created or written in between (a null string is stored as the empty string). Creating, writing or failing to write anything else never changes it. An access with a feature that is not appropriate for the type, or of the wrong value type, is rejected with the documented error and changes nothing.",
  ["histories", "inputs"], "every interleaving of creations, writes and reads over every primitive type, string and reference value, including heap growth",
  T+"write and read back a handful of values on freshly created structures; they do not interleave many structures, extreme values and heap growth.",
  [C+"featurestructure.cpp", C+"lowlevel_fsheap.cpp", C+"uima/lowlevel_fsheap.hpp", C+"uima/lowlevel_internal_heap.hpp", C+"uima/internal_fsvalue_accessors.hpp"],
  [("FeatureStructure::get*Value / set*Value", C+"featurestructure.cpp"), ("FSHeap feature accessors", C+"uima/lowlevel_fsheap.hpp"), ("string heap / heap page growth", C+"uima/lowlevel_internal_heap.hpp")])
p("P04", "Arrays behave as fixed-length, bounds-checked, isolated sequences",
  "An array of any element kind behaves as a sequence of exactly the length it was created with: every element reads as the value last written there and as the default before, and writing or bulk-copying into one array changes only the addressed elements. Any element access outside the length, and any bulk copy whose source or destination range does not fit, is rejected with the documented error and changes nothing.",
  ["histories", "inputs"], "every element kind, length (including 0), index and bulk-copy range, with arbitrary interleaving over several arrays",
  T+"exercise each array class with a few in-range indices and one out-of-range index.",
  [C+"arrayfs.cpp", C+"uima/arrayfs.hpp", C+"lowlevel_fsheap.cpp"],
  [("BasicArrayFS get/set/copyToArray/copyFromArray/size", C+"arrayfs.cpp"), ("FSHeap::createArray, copyToArray, copyFromArray", C+"uima/lowlevel_fsheap.hpp")])
p("P05", "List operations implement mathematical sequences",
  "Every list operation (is-empty, length, get and set head, get and set tail, add first or last, prepend, append, remove element, move to next) has the effect and result of the same operation on a sequence of elements, and other lists that share no nodes with the changed one are unaffected. Operations on the head or tail of an empty list, and operations that would make a list contain itself, are rejected with the documented error and change nothing.",
  ["histories"], "every sequence of list operations over several lists of each element kind, including shared tails",
  T+"build a few short lists and delete from one of them.",
  [C+"listfs.cpp", C+"uima/listfs.hpp"],
  [("BasicListFS operations", C+"listfs.cpp"), ("addLast/addFirst/removeElement/prepend/append", C+"listfs.cpp")])
p("P06", "An index contains exactly what was added and not removed",
  "At any time an index over a type contains exactly the feature structures of that type or its subtypes that were added to its view and not removed since: sorted and bag indexes keep every addition, a set index ignores the addition of a structure whose type and key equal those of a member. Removing a structure affects only that structure (removing one that is not indexed changes nothing), and every way of looking (size, iteration in either direction, lookup, narrowing to a subtype, type-set iteration) agrees on the contents after every change.",
  ["histories"], "every interleaving of additions and removals of structures of different types and equal keys, with iterations between them",
  T+"add a fixed set once and iterate; they hardly remove, never mix removals with iteration over supertypes, and never compare all views of the contents after each step.",
  [C+"lowlevel_indexrepository.cpp", C+"uima/lowlevel_indexrepository.hpp", C+"lowlevel_internal_indexes.cpp", C+"fsindexrepository.cpp", C+"fsindex.cpp"],
  [("IndexRepository::add/remove and dirty flags", C+"uima/lowlevel_indexrepository.hpp"), ("SingleIndex / CachedCompositeIndex", C+"lowlevel_internal_indexes.cpp"), ("FSIndexRepository::addFS/removeFS/getIndex", C+"fsindexrepository.cpp")])
p("P07", "Iteration order is the declared key order and type priority",
  "Iterating a sorted index yields its members in non-decreasing order of the declared keys, each standard or reverse, compared in declaration order, with ties on a type-priority key resolved by a single total order of types that respects every declared priority chain. Annotations come by ascending begin, then descending end, then type priority, for the index itself and for every narrowing to a subtype. A contradictory set of priority chains is rejected.",
  ["inputs", "configurations"], "every key declaration, priority declaration and multiset of member key values and types",
  T+"check the order of a fixed document's annotations under one priority list.",
  [C+"lowlevel_indexcomparator.cpp", C+"lowlevel_internal_indexes.cpp", C+"lowlevel_typesystem.cpp", F+"casdefinition.cpp"],
  [("IndexComparator::compare", C+"lowlevel_indexcomparator.cpp"), ("addTypePriority / computeTypePriorityClosure", C+"lowlevel_typesystem.cpp"), ("createIndexesFromSpecifier / addTypePriorities", F+"casdefinition.cpp"), ("sorted merge of subtype indexes", C+"lowlevel_internal_indexes.cpp")])
p("P08", "Iterators are bidirectional cursors over one fixed sequence",
  "An iterator over an index behaves as a cursor over the index's ordered sequence: first, last, next and previous move by exactly one position in that sequence, the iterator is valid exactly while on an element, and moving to a structure positions it on the first element not smaller than it (invalid if there is none). A copy of an iterator starts at the same position and moves independently, and peeking at a neighbour returns it without moving (an invalid structure beyond either end).",
  ["histories"], "every interleaving of cursor movements on any number of iterators and copies over every kind of index",
  T+"walk iterators forward and backward once and seek to a few known positions.",
  [C+"fsiterator.cpp", C+"lowlevel_internal_indexes.cpp", C+"uima/lowlevel_defaultfsiterator.hpp", C+"uima/lowlevel_indexiterator.hpp"],
  [("FSIterator", C+"fsiterator.cpp"), ("OrderedSingleIndex/FIFO/Cached iterators, moveTo", C+"lowlevel_internal_indexes.cpp")])
p("P09", "Subiterators return exactly the covered annotations",
  "A subiterator over an annotation returns, in index order, exactly the annotations of the requested type, other than the annotation itself, that do not precede it in index order and begin inside its span; its unambiguous variant, and the unambiguous iterator over an index, return from the same sequence exactly those that do not start before the end of the previously returned one. The first covering annotation of a type, when reported, covers the given annotation.",
  ["inputs", "histories"], "every multiset of nested, overlapping, touching and empty annotation spans, every bounding annotation and every cursor movement",
  T+"run one tokenised text through a subiterator.",
  [C+"lowlevel_internal_indexes.cpp", C+"cas.cpp", C+"uima/lowlevel_internal_indexes.hpp"],
  [("AnnotationFS::subIterator / getFirstCoveringAnnotation", C+"cas.cpp"), ("SubIterator / UnambiguousIterator", C+"lowlevel_internal_indexes.cpp")])
p("P10", "A filtered iterator returns exactly the structures that its filter lets through",
  "Iterating an index with a filter visits, in index order and in both directions, exactly those members that the filter does not filter out (an FSFilter's isFiltered, true means filtered out). Comparison filters evaluate the value at the end of their feature path with the stated relation, a path that runs into a null reference is reported as an invalid structure, and conjunction, disjunction, negation and type filters combine their parts as propositional logic does.",
  ["inputs", "programs"], "every filter expression over every population of structures, every cursor movement",
  T+"evaluate about a dozen filters, forward only, on one population.",
  [C+"fsfilterbuilder.cpp", C+"uima/fsfilterbuilder.hpp", C+"lowlevel_internal_indexes.cpp", C+"uima/lowlevel_fsfilter.hpp"],
  [("FSFilterBuilder::create*Filter", C+"fsfilterbuilder.cpp"), ("FilterIndexIterator", C+"lowlevel_internal_indexes.cpp")])
p("P11", "Views are isolated and subjects of analysis are write-once",
  "Each view has its own indexes and its own subject of analysis: indexing or setting data in one view is never visible in another, and view names and numbers identify the same subject wherever they are looked up. Creating a second view of an existing name is rejected, a subject's data (text, array or remote reference) can be set at most once and reads back exactly as set, and asking for a view or subject that does not exist is reported; every rejected operation leaves all views unchanged.",
  ["histories"], "every interleaving of view creation, lookup by name or subject, data setting and indexing over several views",
  T+"create a few views in one fixed order and check their contents once.",
  [C+"cas.cpp", C+"internal_casimpl.cpp", C+"lowlevel_indexrepository.cpp"],
  [("CAS::createView/getView/createSofa/getSofa", C+"cas.cpp"), ("SofaFS::setLocalSofaData/setRemoteSofaURI", C+"cas.cpp"), ("getIndexRepositoryForSofa", C+"cas.cpp")])
p("P12", "Document text, document annotation and covered text stay consistent",
  "After a view's (non-empty) document text is set, the text reads back exactly, the view has exactly one document annotation, which spans the whole text and is indexed, and the document language reads back as last set. The covered text of every annotation is exactly the slice of its own view's text between its begin and end, and the view of an annotation is the view it was created in.",
  ["inputs", "histories"], "every text (including empty, supplementary and control characters), annotation span, language and order of operations over several views",
  T+"use fixed ASCII texts in one or two views.",
  [C+"cas.cpp"],
  [("CAS::setDocumentText / updateDocumentAnnotation", C+"cas.cpp"), ("AnnotationFS::getCoveredText / getView", C+"cas.cpp"), ("DocumentFS::getLanguage/setLanguage", C+"cas.cpp")])
p("P13", "A reset CAS is indistinguishable from a new one",
  "After a reset, a CAS behaves in every observable respect like a freshly created CAS of the same definition: no views, subjects, indexed structures, document text or numbering of the earlier content remain, and every later sequence of operations gives the same results as on a new CAS. This holds after any history, any number of resets and for the serialized form of the content.",
  ["histories"], "every history before the reset, followed by every history after it",
  T+"reset after one scenario and compare a few sizes.",
  [C+"cas.cpp", C+"lowlevel_fsheap.cpp", C+"lowlevel_indexrepository.cpp", C+"uima/lowlevel_internal_heap.hpp"],
  [("CAS::reset", C+"cas.cpp"), ("FSHeap::reset / heap reset", C+"lowlevel_fsheap.cpp"), ("IndexRepository::reset", C+"lowlevel_indexrepository.cpp")])
p("P14", "XMI serialization round-trips the whole CAS",
  "Deserializing the XMI written for a CAS into an empty CAS of the same type system yields an equal CAS: the same graph of feature structures reachable from the indexes and subjects (types, every feature value exactly, shared references, cycles, arrays and lists, nulls and empty containers), the same views with the same subject data, and the same index membership per view. The written document is well-formed XML for every content that XML can represent.",
  ["inputs"], "every feature-structure graph, value, text and distribution over views and indexes",
  T+"round-trip a few fixed documents and compare selected values or sizes.",
  [C+"xmiwriter.cpp", C+"xmideserializer.cpp", C+"xmideserializer_handler.cpp"],
  [("XmiWriter", C+"xmiwriter.cpp"), ("XmiDeserializerHandler", C+"xmideserializer_handler.cpp")])
p("P15", "Out-of-type-system data survives an XMI round trip",
  "When XMI is read leniently into a CAS whose type system lacks some of its types or features, the known part is read exactly as if the unknown part were absent, and writing the CAS back with the same shared data yields a document that, read with the full type system, contains again everything of the original: unknown elements, unknown features, references in both directions and index membership. Without lenient reading an unknown type or feature is rejected with an error.",
  ["inputs", "configurations"], "every graph and every choice of which types and features the intermediate type system lacks",
  T+"do this for one fixed document and one reduced type system.",
  [C+"xmideserializer_handler.cpp", C+"xmiwriter.cpp", C+"uima/xmishareddata.hpp"],
  [("XmiSerializationSharedData", C+"uima/xmishareddata.hpp"), ("addToOutOfTypeSystemData / OOTS features", C+"xmideserializer_handler.cpp"), ("writing OOTS data", C+"xmiwriter.cpp")])
p("P16", "XCAS serialization round-trips the whole CAS",
  "Deserializing the XCAS written for a CAS into an empty CAS of the same type system yields an equal CAS: the same reachable feature structures with every feature value, reference, array element and list, the same views and subject data, and the same index membership per view. The written document is well-formed XML for every content that XML can represent.",
  ["inputs"], "every feature-structure graph, value, text and distribution over views and indexes",
  T+"round-trip a few fixed documents and compare selected values or sizes.",
  [C+"xmlwriter.cpp", C+"xcasdeserializer.cpp", C+"xcasdeserializer_handler.cpp"],
  [("XCASWriter", C+"xmlwriter.cpp"), ("XCASDeserializerHandler", C+"xcasdeserializer_handler.cpp")])
p("P17", "Binary CAS serialization round-trips the whole CAS",
  "Deserializing the binary form of a CAS (with its type system and index definitions) yields a CAS with the same types, features and priorities, the same index definitions and the same content: every feature structure and value, every array and list, all views with their subject data and exactly the same index membership. It does so again after the receiving CAS is reused for another document.",
  ["inputs", "histories"], "every type system, index definition, graph and value, and every sequence of documents passed through the same receiver",
  T+"serialize one or two documents and compare dumps of them.",
  [C+"internal_casserializer.cpp", C+"internal_casdeserializer.cpp", C+"internal_serializedcas.cpp", "src/jni/jni.cpp"],
  [("CASSerializer", C+"internal_casserializer.cpp"), ("CASDeserializer", C+"internal_casdeserializer.cpp")])
p("P18", "The engine lifecycle admits only legal call sequences",
  "An analysis engine accepts initialize only when new, and process, reconfigure, completion notifications and destroy only when initialized and not destroyed; every other call is reported as an invalid calling sequence, reaches no annotator and changes nothing. An error code or exception from the annotator's own method is reported to the caller as that error and never as success, a failed initialization leaves the engine unusable for processing, and each successful call reaches the annotator exactly once.",
  ["histories", "fault_sequences"], "every sequence of engine calls and every choice of annotator methods that fail by error code or exception",
  T+"make a few illegal calls on one engine and never inject failures at each annotator method.",
  [F+"internal_engine_base.cpp", F+"internal_primitive_engine.cpp", F+"annotator.cpp"],
  [("EngineBase::initialize/process/reconfigure/destroy", F+"internal_engine_base.cpp"), ("PrimitiveEngine", F+"internal_primitive_engine.cpp"), ("AnnotatorProxy state", F+"annotator.cpp")])
p("P19", "An aggregate runs its delegates exactly in flow order",
  "An aggregate initializes and processes each delegate of its flow exactly once per call and in flow order, recursively through nested aggregates, and gives each delegate the view its sofa mapping selects. A delegate's failure is always reported to the caller: an exception ends the processing of that document at once, an error code is returned after the remaining delegates have been called, and if a delegate failed during initialization every delegate initialized before is shut down; batch and collection completion, reconfigure and destroy reach every delegate exactly once.",
  ["configurations", "fault_sequences", "histories"], "every flow and nesting of delegates, every failing delegate and failing method, every call history",
  T+"run two or three fixed aggregates in which nothing fails.",
  [F+"annotator_mgr.cpp", F+"internal_aggregate_engine.cpp", F+"internal_engine_base.cpp"],
  [("AnnotatorManager::launch*", F+"annotator_mgr.cpp"), ("AggregateEngine::*Impl", F+"internal_aggregate_engine.cpp")])
p("P20", "Capability-language flow calls a delegate exactly when it is needed",
  "Under a capability-language flow a delegate is called exactly when it declares no outputs or when some requested output type or feature that it declares for the document's language has not been produced by an earlier delegate in the flow. Language matching accepts the exact language, its language without territory and declarations for unspecified language; the result specification a delegate sees contains exactly its share of the requested outputs; under a fixed flow every delegate is called.",
  ["configurations", "inputs"], "every set of delegate capabilities (outputs by language), requested outputs and document language",
  T+"use one engine with a single capability and one language.",
  [F+"internal_capability_container.cpp", F+"annotator_mgr.cpp", F+"language.cpp"],
  [("CapabilityContainer", F+"internal_capability_container.cpp"), ("AnnotatorManager::shouldEngineBeCalled / launchProcess", F+"annotator_mgr.cpp"), ("Language", F+"language.cpp")])
p("P21", "A CAS pool never hands one CAS to two holders and loses none",
  "A CAS obtained from a pool is always empty and never one that another holder still has, no more than the configured number are in use at once, and a released CAS becomes available again exactly once, even if a release is repeated or names a CAS the pool did not hand out. A CAS multiplier's iterator returns exactly the documents its segmenter produces, in order, from such a pool, and reports exhaustion afterwards.",
  ["histories"], "every interleaving of obtain, use and release operations over any pool size, including illegal releases, and every multiplier output length",
  T+"run one multiplier that releases every CAS in order.",
  [F+"caspool.cpp", F+"casiterator.cpp", F+"annotator_context.cpp", F+"internal_engine_base.cpp"],
  [("CASPool::getCAS/releaseCAS", F+"caspool.cpp"), ("CASIterator", F+"casiterator.cpp"), ("AnnotatorContext::getEmptyCAS", F+"annotator_context.cpp")])
p("P22", "Configuration parameter lookup follows override and group rules",
  "The value an annotator reads for a parameter is exactly the one the descriptors define: that of its outermost enclosing aggregate which declares a parameter of that name, may set it for that delegate (no restrictOverrideTo, or one naming the delegate) and has a value for it, else the component's own. Each component looks in the named group (the default group where none is named), then in the groups its search strategy falls back to (language fallback: the group name cut at its last '-', again and again; then the default group), a group's parameters including the common ones; values read are those written in the descriptor, environment variable references replaced, with the declared type. A value set at run time is stored by the outermost component that may take it and is read back by exactly the components it concerns, with the type and multiplicity it was set with; a setting nobody declares with that type is refused and changes nothing. Reading an undeclared parameter or with another type than declared, and creating an engine whose descriptor sets undeclared parameters, declares one twice or leaves a mandatory one without value, are reported.",
  ["configurations", "histories"], "every declaration, override, group, search strategy and lookup language, and every sequence of run-time settings",
  T+"read one fixed descriptor's parameters and change one of them.",
  [F+"annotator_context.cpp", F+"taespecifier.cpp", F+"config_param.cpp"],
  [("AnnotatorContext::findNameValuePair / extractValue / assignValue", F+"annotator_context.cpp"), ("NameValuePairs, ConfigurationParameters, search strategies", F+"taespecifier.cpp")])
p("P23", "Sofa names are mapped through every enclosing aggregate",
  "The subject or view a component obtains under one of its own sofa names is the one its enclosing aggregates' sofa mappings name, followed outward through every level, and the same name when no mapping exists; the default text view is mapped likewise. Two components obtain the same view exactly when their mapped names are equal, and every view a component creates appears to the application under the mapped name.",
  ["configurations"], "every nesting of aggregates, set of sofa mappings (named and default) and component sofa name",
  T+"use one single-level mapping.",
  [F+"annotator_context.cpp", F+"taespecifier.cpp", F+"annotator_mgr.cpp", C+"cas.cpp"],
  [("AnnotatorContext::mapToSofaID / getSofaMappings", F+"annotator_context.cpp"), ("AnnotatorManager view selection", F+"annotator_mgr.cpp"), ("CAS::getView/createView with component info", C+"cas.cpp")])
p("P24", "Sofa data streams deliver exactly the subject's bytes",
  "Reading a subject of analysis through its data stream returns exactly the bytes of the subject (the UTF-8 form of a text, the elements of an array of numbers as they are at the time of the read, the content its URI's handler delivers) in order, whatever the sizes of the individual reads, then reports the end: a read returns the number of elements read and those elements in native byte order (remote content is big-endian), never more than asked for. Seeking from start, current position or end positions the stream at that byte; a position outside the data is reported and leaves the stream where it was. The size of an open stream is the number of bytes it delivers and what is available is what is left. Streams over one subject are independent, and every stream keeps to this however the CAS grows after it was opened. A stream that is not open, data of another kind, a text that is not UTF-16, an element size that does not fit a text, an int or a float array, and a URI without a registered scheme are reported with the documented exception.",
  ["inputs", "histories"], "every subject kind and content, every sequence of opens, read sizes, element sizes, seeks and closes on any number of streams, interleaved with changes of the arrays and growth of the CAS",
  T+"read two fixed streams sequentially.",
  [C+"sofastream.cpp", C+"uima/sofastream.hpp"],
  [("LocalSofaDataStream::get/seek", C+"sofastream.cpp"), ("RemoteSofaDataStream", C+"sofastream.cpp")])
p("P25", "Written descriptions read back to equal descriptions",
  "An analysis engine description written out as XML (toXMLBuffer) and read back, once or repeatedly, describes the same engine: the same components, flows, sofa mappings, capabilities, operational properties, parameter declarations, restrictions, groups and settings, and the same types, features, ranges, reference flags and allowed values, the same indexes (types, kinds, keys and their order and direction) and the same lists of type priorities, for every legal name and value including characters that need escaping, and the written form of a description that is valid against the schema of the resource specifiers is valid too (text surrounded by white space is read without it). So every engine and every type system made from the written form behaves exactly like one made from the original. A type hierarchy written as XML (XMLTypeSystemWriter) and read back has the same types, supertypes, features and ranges (that format has no allowed values and no reference flags).",
  ["inputs"], "every description over every legal name, value, parameter group, restriction, flow, mapping and capability",
  T+"never read back what the description writer wrote.",
  [F+"taespecifier.cpp", F+"taespecifierbuilder.cpp", C+"xmltypesystemwriter.cpp", C+"xmltypesystemreader.cpp"],
  [("AnalysisEngineDescription::toXMLBuffer", F+"taespecifier.cpp"), ("XMLParser::parseAnalysisEngineDescription", F+"taespecifierbuilder.cpp"), ("XMLTypeSystemWriter::write", C+"xmltypesystemwriter.cpp"), ("XMLTypeSystemReader", C+"xmltypesystemreader.cpp")])
p("P26", "A string reference behaves as exactly the text it refers to",
  "A reference to a part of a text (UnicodeStringRef: what covered texts, feature values and subjects are handed out as) answers every question from the code units it refers to and from no others: length, units, code points and their limits, comparisons (by unit, by code point, without case), prefix and suffix tests, searches forwards and backwards for units, code points and strings, trimming and the movement over surrogate pairs give what the same operation gives on that sequence of units, U+0000 included. Offsets and lengths outside of the string are brought to its limits. Extracting gives exactly the part, in UTF-16 or in the bytes of the code page; what does not fit a caller's buffer is reported by its length and no more than the buffer is written. Equality, the orders and the tests agree with each other, and no operation changes the text.",
  ["inputs"], "every text (surrogates, U+0000 and code units outside of the reference included), every part of it and every offset and length, also negative and excessive ones",
  T+"compare and search a few fixed strings that are not part of a longer text.",
  [F+"unistrref.cpp", F+"uima/unistrref.hpp"],
  [("UnicodeStringRef::compare / compareCodePointOrder / indexOf / lastIndexOf / extract", F+"unistrref.cpp"), ("pinIndices, startsWith, endsWith, operator==, char32At, moveIndex32, trim", F+"uima/unistrref.hpp")])
p("P27", "Every log entry that is due reaches every logger once and unmixed",
  "A message, warning or error logged through a component's log facility, directly or through its stream, reaches each registered logger exactly once, in the order of the loggers' registration, with its type, the component's name, its code and its text, if its type is at least the facility's level, and none otherwise. The level of a facility is the one in force when it is made. Text put into the stream is an entry of the type it was started with when it is ended, flushed, followed by the next entry or its facility ends. A logger that is registered twice gets an entry twice, one that is unregistered no more; unregistering one that is not registered is reported. Entries logged by several threads at the same time reach every logger whole, in the same order and each thread's in its own order. The last error of a facility is the last error logged through it, logged or suppressed, however often it is read.",
  ["histories", "schedules"], "every sequence of level changes, registrations, facilities' lifetimes, entries, stream operations and reads of the last error, and entries logged by several threads at once",
  T+"do not look at what a logger receives.",
  [F+"log.cpp", F+"uima/log.hpp", F+"resmgr.cpp"],
  [("LogFacility::log / getLogStream / flushLogStream / getLastError", F+"log.cpp"), ("LogStream::flush, endl", F+"uima/log.hpp"), ("ResourceManager::registerLogger / unregisterLogger / setLoggingLevel", F+"resmgr.cpp")])
p("P28", "A CAS has exactly the indexes and the type order its descriptors declare",
  "The CAS of an engine has exactly the indexes that the descriptors of the engine and of all its delegates, at every level of nesting, declare in their own text or in the files they import, directly or through further files, relative to the importing file and each file once even where files import each other; besides these only the built-in ones. Each has the declared type, kind and keys (features in their order, ascending or descending, inherited features and the order of types included) and lists exactly the indexed structures of its type and subtypes: a sorted index in the declared order, a set one of each group of equal structures of a type. The order of types follows every priority chain that the engine's own descriptor and its imports declare, closed transitively. One label may be declared by several components if the definitions are the same; a label declared twice by one component, or differently by two, or against the built-in index, an unknown type, a feature that the index's type does not have, priorities that contradict each other, and an import of a missing file or by name make the creation of the engine fail with their error, and of nothing else. An unknown label is reported. The written form of the descriptors declares the same.",
  ["inputs", "configurations"], "every tree of components with index and priority declarations, import graphs over directories, and every set of indexed structures",
  T+"have one descriptor with a few indexes, no import of an index or a priority and no conflict.",
  [F+"casdefinition.cpp", F+"annotator_context.cpp", F+"taespecifierbuilder.cpp", C+"lowlevel_indexdefinition.cpp"],
  [("CASDefinition::createIndexesFromSpecifier / addTypePriorities", F+"casdefinition.cpp"), ("AnnotatorContext::getFSIndexDescriptions", F+"annotator_context.cpp"), ("AnalysisEngineDescription::getFSIndexDescriptions", F+"taespecifier.cpp"), ("XMLParser::buildFSIndexFromImportLocation / buildTypePriorityFromImportLocation", F+"taespecifierbuilder.cpp"), ("IndexDefinition::defineIndex / isCompatibleIndexDefinition", C+"lowlevel_indexdefinition.cpp")])
p("P29", "An error says exactly what happened, whatever its text",
  "The text of an error message is the pattern that belongs to its number with every parameter in its place, as often and in the order in which the pattern names them, parameters that were not given shown as ???, %% as %, and with parameters of any kind (byte and UTF-16 strings, signed and unsigned numbers of every size), number and length: nothing is cut, and nothing but the text is written. Error information keeps its number, severity, message and the contexts in the order in which they were added; assigning and copying make independent copies, and reset leaves nothing of the old error. Its text gives number, message and contexts in this order, or that there is no error. What is caught is what was thrown: an object of the exception's own class, reached by handlers of this class and of every class above it and of no other, with its error information, and with the contexts that were added on the way, also where it is thrown again with a further context. Its name is that of its class.",
  ["inputs", "histories"], "every message of the library with every number, kind and length of parameters, every history of messages, errors and contexts, and every exception thrown and thrown again",
  T+"look at error codes, at most.",
  [F+"exceptions.cpp", F+"uima/exceptions.hpp", F+"msgstrtab.cpp"],
  [("ErrorMessage::asString / addParam", F+"exceptions.cpp"), ("ErrorInfo::asString / addContext / reset", F+"exceptions.cpp"), ("UIMA_EXC_THROW, UIMA_EXC_RETHROW, UIMA_EXC_CLASSDECLARE", F+"uima/exceptions.hpp")])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
