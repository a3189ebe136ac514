#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
C="internal/concrete/"
p("C01","Stored text reads back unchanged, whatever else is stored",
  "A remark created with an object and a property gives back exactly that object and that property, at once and at every later moment, whatever other texts have been or are later stored in the same graph. This holds for every valid text: valid UTF-8 whose words are non-empty and separated by single spaces, of any length, any script and any code points.",
  ["inputs","histories"],"every pair of valid texts, every set of texts stored before and after it",
  "The tests store three pairs of lower-case ASCII words in one fresh graph (the word and phrase repository tests return before comparing anything), while the bit, character, word and phrase tries are shared by all texts, so that one text can disturb another only in particular combinations.",
  [C+"character/entity.go",C+"character/aggragate.go",C+"character/paths.go",C+"word/element.go",C+"word/factory.go",C+"phrase/element.go",C+"phrase/factory.go",C+"detail/factory.go",C+"detail/entity.go",C+"bit/layer.go"],
  [("tries over bits, characters and words, read backwards from the last element",C+"character/aggragate.go, "+C+"word/aggregate.go, "+C+"phrase/aggregate.go")],
  ["Graph.CreateStory","Remark.AddRemarkToFact","Remark.AddFactToStory","Remark.CreateChildStory","Remark.GetObjectAndProperty"])
p("C02","Text that cannot be stored is refused, without damage",
  "Creating a story, fact, remark or child story with a text that has an empty word (the empty text, a leading, trailing or doubled space) or that is not valid UTF-8 (texts are stored by character, so its bytes could not be given back) returns an error and never panics. Every remark that existed before still shows the same texts and the same navigation afterwards, and the next valid operation succeeds as if the refused one had never been tried.",
  ["inputs","histories"],"every text with an empty word or invalid bytes, in either position of every creating operation, at every point of a history",
  "The tests try one empty string on the word and phrase repositories in fresh graphs; an empty word in a later position, invalid bytes, and the state left behind by a refusal, are never looked at.",
  [C+"phrase/repository.go",C+"word/repository.go",C+"character/repository.go",C+"word/paths.go",C+"phrase/paths.go",C+"remark/repository.go",C+"remark/aggregate.go"],
  [("the word path refuses a word without characters",C+"word/paths.go"),("errors of path steps are passed up",C+"phrase/repository.go, "+C+"word/repository.go")],
  ["error result of every creating operation","full observation of all earlier remarks"])
p("C03","A remark's identifier names that remark and nothing else",
  "Every created remark has an identifier that differs from that of every other remark; fetching a remark by that identifier, at any later time, gives a remark with the same identifier, the same texts and the same navigation. Fetching by an identifier that does not belong to a remark (of something else in the graph, or of nothing) returns an error.",
  ["inputs","histories"],"every history, every identifier handed out by it and every other identifier",
  "The one test fetches one remark once, ignores the error, and never tries an identifier that is not a remark's.",
  [C+"remark/repository.go",C+"remark/storage.go",C+"remark/aggregate.go",C+"class/node/remark.go","graph.go"],
  [("identifier is the remark's class node; the class is checked on fetch",C+"remark/repository.go, "+C+"class/node/remark.go"),("chain of references from the class node to the other nodes of the remark",C+"remark/storage.go")],
  ["Graph.GetRemark","Remark.GetIdentifier"])
p("C04","Facts of a story are enumerated completely and in order",
  "From any remark of a story, going to the first fact gives the remark the story was created with; following next-fact from there visits the first remark of every fact of the story exactly once, in the order the facts were added, and then reports that there is no next fact. Adding a fact through any remark of the story, whichever fact it belongs to, adds it at the end.",
  ["inputs","histories"],"every history of adding facts and remarks to any number of stories, every remark to start from",
  "The test adds one fact to one story and never navigates to it.",
  [C+"remark/aggregate.go",C+"fact/repository.go",C+"fact/aggregate.go",C+"fact/entity.go",C+"fact/storage.go",C+"story/storage.go",C+"story/entity.go"],
  [("position links between facts, fact-to-story and story-to-first-fact links",C+"fact/entity.go, "+C+"story/entity.go"),("append at the end of the chain",C+"fact/repository.go")],
  ["Remark.GetFirstFact","Remark.HasNextFact","Remark.GetNextFact","Remark.AddFactToStory"])
p("C05","Remarks added to a fact share its object and belong to it",
  "A remark added to a fact through another remark has that remark's object and the given property, and belongs to the same fact: it reaches the same first fact, the same next fact and the same next story as the remark it was added through. Following next-remark from the first remark of a fact visits every remark of that fact exactly once, in the order they were added, and never a remark of another fact.",
  ["inputs","histories"],"every history in which remarks are added to facts through any of their remarks",
  "The test adds one remark, compares its texts, and pins a rendering from which the added remark is missing.",
  [C+"remark/aggregate.go",C+"remark/entity.go",C+"fact/entity.go",C+"detail/repository.go"],
  [("remark-to-fact link, position links between remarks",C+"remark/entity.go"),("object taken over from the remark's detail",C+"remark/aggregate.go")],
  ["Remark.AddRemarkToFact","Remark.HasNextRemark","Remark.GetNextRemark","Remark.GetFirstFact","Remark.HasNextFact","Remark.HasNextStory"])
p("C06","A rendered story is its first fact's remarks, from any remark",
  "Rendering a story gives, for each remark met when following next-remark from the story's first remark, its object, a space, its property and a space, in that order and nothing else. Every remark of the story, whichever fact it belongs to and however it was obtained, renders to the same string, and rendering any other story does not change it.",
  ["inputs","histories"],"every story of every history, every remark of it as starting point",
  "The test renders one story from its first remark.",
  ["output.go",C+"remark/aggregate.go",C+"fact/aggregate.go"],
  [("walk from the first fact",  "output.go")],
  ["Output.GetStory","Remark.GetFirstFact","Remark.HasNextRemark"])
p("C07","Child stories are siblings of each other, in order of creation",
  "A child story is a story of its own: the remark it is created with is its first fact, and facts added to it do not appear in its parent nor the other way round. Following next-story from any remark of a story's first child visits every child of that story, each by its first remark, exactly once and in order of creation, and then reports that there is no next story. A story created on its own has no next story, at every depth of nesting a parent is never among its children, and children of different parents are never mixed.",
  ["inputs","histories"],"every forest of stories, children created through any remark of the parent, every starting remark",
  "No test creates a child story.",
  [C+"fact/repository.go",C+"fact/aggregate.go",C+"story/entity.go",C+"story/storage.go",C+"remark/aggregate.go"],
  [("position links between sibling stories, tree links to the parent",C+"fact/repository.go, "+C+"story/entity.go")],
  ["Remark.CreateChildStory","Remark.HasNextStory","Remark.GetNextStory","Remark.GetFirstFact"])
p("C08","Work on one story never shows in another",
  "An operation on one story (adding a remark or a fact, creating a child, rendering, navigating) leaves everything that can be observed from every remark of every other story unchanged: texts, first fact, facts, remarks, next story and rendering. This holds also between stories whose texts are equal or share words, and only creating a child may change one thing elsewhere: the previous youngest sibling then has a next story.",
  ["histories"],"every interleaving of operations on any number of stories, also with equal texts",
  "The tests hold one story per graph.",
  [C+"remark/aggregate.go",C+"fact/repository.go",C+"story/repository.go",C+"detail/entity.go"],
  [("stories share only text; facts, remarks and stories have nodes of their own",C+"remark/repository.go, "+C+"fact/repository.go, "+C+"story/repository.go")],
  ["full observation of every remark before and after every operation"])
p("C09","Reading never changes the graph",
  "Fetching a remark, reading its texts, navigating (first fact, next fact, next remark, next story), asking whether there is a next one, and rendering a story make no change in the storage of a graph that has content, and give the same answers however often, in whatever order and through whichever copy of the remark they are asked.",
  ["histories","inputs"],"every reading operation on every remark of every history, also right after the graph was opened again and also when the reading fails",
  "The tests never look at the storage after a read and read everything once.",
  ["output.go",C+"remark/aggregate.go",C+"fact/aggregate.go",C+"detail/aggregate.go",C+"class/repository.go",C+"bit/layer.go"],
  [("reading paths only call the reading half of the storage interface",C+"*/entity.go, "+C+"*/storage.go")],
  ["mutating calls at the storage boundary during reading operations","repeated answers"])
p("C10","Equal text is stored once, different text never merged",
  "Each distinct character, word beginning, phrase beginning and object-property pair is represented once in the graph, however often and in whatever combinations it is used. Storing a pair of texts that is already known therefore adds the same small number of nodes whatever the length of the texts, and texts that differ (in order, in case, in a prefix, in object and property being swapped) never share a representation.",
  ["inputs","histories"],"every multiset of texts in every order of arrival",
  "The tests store every text once and never count nodes.",
  [C+"character/factory.go",C+"character/element.go",C+"word/factory.go",C+"word/element.go",C+"phrase/factory.go",C+"phrase/element.go",C+"detail/factory.go"],
  [("look up before create on each trie level",C+"*/element.go, "+C+"*/factory.go"),("common detail of two phrases",C+"detail/factory.go")],
  ["storage growth per operation","members of the text classes"])
p("C11","Every entity is registered once in the index of its class",
  "After any history of successful operations the class index holds exactly one remark per created remark, one fact per story and per added fact, and one story per created story or child story; remark identifiers are exactly the members of the remark class. No member is lost, registered twice or registered in two classes, and reading never adds one.",
  ["histories"],"every history of successful operations",
  "One test checks that the last class node exists; none counts members.",
  [C+"class/repository.go",C+"class/node/*.go",C+"remark/repository.go",C+"fact/repository.go",C+"story/repository.go"],
  [("class nodes 1 to 8, one link from each entity to its class node",C+"class/node/*.go")],
  ["sources of the class nodes at the storage boundary"])
p("C12","A graph opened again on the same storage continues where it was",
  "A graph opened on a storage that already holds a graph shows every remark by its identifier exactly as before, and continues: operations through the new handle behave, down to the identifiers and the stored content, as they would have through the old one. Several handles on one storage, used in turn, behave as one graph: what one has written all others see at once.",
  ["histories","configurations"],"every history, every set of points at which the graph is opened again or the handle is switched",
  "Every test uses one handle on one fresh storage.",
  [C+"class/repository.go",C+"bit/layer.go","graph.go"],
  [("class nodes and bit nodes are found instead of created",C+"class/repository.go, "+C+"bit/layer.go")],
  ["observations and storage content of the run with reopenings against the run without"])
p("C13","A failing storage call is reported, never hidden",
  "If a call to the storage fails during an operation, that operation returns an error: it never panics, never hangs and never reports success. This holds for every operation, reading or writing, and for whichever of its storage calls fails.",
  ["fault_sequences","inputs"],"every operation, every single storage call it makes as the failing one",
  "The storage used by the tests never fails, and the one test with a failing mock does not compile.",
  [C+"character/repository.go",C+"character/elements.go",C+"character/aggragate.go",C+"word/repository.go",C+"word/aggregate.go",C+"phrase/repository.go",C+"phrase/aggregate.go",C+"detail/factory.go",C+"fact/aggregate.go",C+"remark/aggregate.go","output.go"],
  [("error results are checked and passed up",C+"**")],
  ["result of the operation under an injected storage error"])
p("C14","A failed operation leaves all or nothing, and can be repeated",
  "After an operation failed because a storage call failed (whether or not that call took effect), every remark that existed before shows what it showed before, or what it would show had the failed operation been completed, never something in between. Once the storage works again, the same operation and every other one succeed on the same graph and give the same results as on a graph that never saw a failure, apart from what a completed failed operation added.",
  ["fault_sequences","histories"],"every operation (also the very first on an empty storage), every storage call as the failing one, failing before or after taking effect, and sequences of such failures",
  "No test injects a storage failure into a graph and carries on.",
  [C+"fact/repository.go",C+"remark/aggregate.go",C+"detail/storage.go",C+"character/factory.go",C+"word/factory.go",C+"phrase/factory.go",C+"class/repository.go",C+"bit/layer.go"],
  [("a new thing is linked into what exists only once it is complete",C+"fact/repository.go, "+C+"detail/storage.go, "+C+"*/factory.go"),("initialisation continues where it stopped",C+"class/repository.go, "+C+"bit/layer.go")],
  ["full observation after the failure and after the repetition"])
p("C15","A crash between storage writes never damages the graph",
  "If the process stops between any two changes of the storage, a graph opened afterwards on that storage shows every remark created by completed operations as before, and the interrupted operation has either no visible effect or its whole effect. All operations then succeed and give right results, also when the crash hit the very first operation, before or while the graph's basic nodes were created, and also after several crashes.",
  ["crash_points","histories"],"every history, every storage change as the last one that happened, repeated crashes",
  "No test stops an operation half way or opens a storage again.",
  [C+"class/repository.go",C+"bit/layer.go",C+"fact/repository.go",C+"detail/storage.go",C+"character/factory.go",C+"word/factory.go",C+"phrase/factory.go"],
  [("linking last; initialisation that continues where it stopped",C+"class/repository.go, "+C+"bit/layer.go, "+C+"fact/repository.go")],
  ["full observation through a new handle after the crash"])
p("C16","Stored content is only ever added to",
  "No operation, successful or failing, removes a node or a connection from the storage or gives a node that already has a reference a different one. What was once stored stays stored.",
  ["histories","fault_sequences"],"every operation of every history, also with failures",
  "No test looks at what is done to the storage.",
  [C+"*/storage.go",C+"*/entity.go",C+"class/repository.go",C+"bit/layer.go"],
  [("only creation, connecting and setting of references on new nodes",C+"*/storage.go")],
  ["mutating calls at the storage boundary against a shadow copy"])
p("C17","Only what the storage promises is relied upon",
  "Every node identifier that an operation passes to the storage was handed out by that storage (apart from the caller's own identifier when fetching and from asking whether the class nodes exist). Lists that the storage returns are only read, never written to. Behaviour depends on nothing but the storage's contract: with any storage that lists connections in any order and hands out any fresh identifiers after the first eight, all operations show the same texts and the same navigation.",
  ["configurations","histories","inputs"],"every storage that fulfils the contract (any order of lists, any gaps in identifiers), every history",
  "All tests run on one storage implementation, which hands out small consecutive numbers and keeps lists in order of insertion.",
  ["internal/abstract/storage.go",C+"*/storage.go",C+"*/entity.go",C+"bit/layer.go",C+"fact/repository.go"],
  [("lists are searched, never indexed by position, where they can have several members",C+"*/element.go, "+C+"detail/factory.go, "+C+"fact/repository.go")],
  ["arguments of storage calls","lists handed out by the storage, after the operations","observations on a reference storage with shuffled lists and gaps against clew"])
p("C18","Graphs on different storages are independent, also in parallel",
  "Graphs on different storages have nothing in common: used in turn or from different goroutines at the same time, each behaves exactly as it would alone, down to the identifiers, and there is no data race between them.",
  ["schedules","configurations","histories"],"every number of graphs, every interleaving and every parallel schedule of their operations",
  "Every test uses one graph at a time and the race detector is not used.",
  ["graph.go","output.go",C+"class/repository.go",C+"bit/layer.go"],
  [("all state hangs on the graph value and its storage",  "graph.go")],
  ["race detector","results of each graph against its run alone"])
p("C19","A graph that has been read once can be read in parallel",
  "On a graph handle that has completed one reading of a remark's texts, any number of goroutines may fetch remarks, read texts, navigate and render (each through an Output of its own or all through one) at the same time, as long as nobody writes: there is no data race, and each gets the same answers as alone. This holds also for a handle that was just opened on an existing storage, after that one reading.",
  ["schedules","histories"],"every set of concurrent reading operations and every schedule of them",
  "No test uses goroutines.",
  [C+"class/repository.go",C+"bit/layer.go",C+"remark/repository.go","output.go"],
  [("lazily created state (class entity, bit layer) is written only the first time",C+"class/repository.go, "+C+"bit/layer.go")],
  ["race detector","answers against the sequential ones"])
p("C20","The same history always gives the same graph",
  "Repeating the same sequence of operations on an equal storage, in the same or another process, gives the same identifiers, the same answers and the same stored content.",
  ["histories"],"every history, every repetition",
  "No test runs a history twice and compares.",
  [C+"**"],
  [("no randomness, time or map order in any decision",C+"**")],
  ["results and mutating storage calls of repeated runs"])
p("C21","The work an operation does is bounded by what it touches",
  "Every operation ends after a number of storage calls that does not depend on how many other stories and remarks the graph holds, nor on how many stored texts that share no beginning and no word with the texts of the operation. It grows at most in proportion to the length of the texts it stores or reads. The lists the storage hands out to it do not get longer with them either. Reading a remark's texts or stepping to the next fact or story costs the same in a graph with thousands of stories as in one with a single story, and adding a fact or child costs at most in proportion to the facts or children of that story.",
  ["histories","inputs"],"every graph size, every operation",
  "The tests hold one story and never count storage calls.",
  [C+"remark/aggregate.go",C+"fact/repository.go",C+"detail/factory.go",C+"word/element.go",C+"phrase/element.go"],
  [("direct references between the nodes of an entity instead of searching",C+"*/storage.go")],
  ["number of storage calls per operation","number of identifiers in the lists these calls return"])
p("C22","An entity can be looked up from each of its own nodes",
  "In every layer (character, word, phrase, detail, remark, fact, story), looking up an entity by any one of the node identifiers it is made of gives an entity with the same identifiers that answers all questions as the original does. Entities do not overlap: no node belongs to two entities.",
  ["inputs","histories"],"every entity of every layer in every history, every identifier of it",
  "The repositories use one or two of the lookups per layer, each on one entity; the remaining lookups are never called by a test.",
  [C+"character/storage.go",C+"word/storage.go",C+"phrase/storage.go",C+"detail/storage.go",C+"remark/storage.go",C+"fact/storage.go",C+"story/storage.go"],
  [("doubly linked references between the nodes of one entity",C+"*/storage.go")],
  ["layer interfaces (internal/abstract/*), through a harness package laid over the module"])
p("C23","A child story knows its parent, at every depth",
  "At the layer of facts, a fact of a child story reports that there is a parent story and leads to the first fact of exactly that parent, whichever child and whichever fact of it is asked. A fact of a story created on its own reports that there is none, also when that story has children.",
  ["histories"],"every forest of stories, every fact of each",
  "No test creates a child story or asks for a parent.",
  [C+"fact/aggregate.go",C+"fact/repository.go",C+"story/entity.go"],
  [("tree link from child to parent",C+"fact/repository.go, "+C+"fact/aggregate.go")],
  ["internal/abstract/fact Aggregate HasParentStory, ToParentStory, through a harness package laid over the module"])
p("C24","Every class question is answered rightly",
  "Asked at the layer of classes: a node created as a member of a class (bit, character, word, phrase, detail, remark, fact or story) is recognised as a member of that class and of none of the other seven; a node that was never registered with any class, the class nodes themselves included, is recognised as a member of none; the list of all bits holds exactly the nodes created as bits. This holds through every history of the public operations and for an entity of classes in use as well as a new one on the same storage.",
  ["histories","inputs"],"every node of every graph, every class, every history",
  "The one test of the classes creates the entity and asks it nothing; GetRemark is the only public operation that asks for a class, and asks for one of the eight.",
  [C+"class/entity.go",C+"class/repository.go",C+"class/storage.go","internal/abstract/class/*"],
  [("one connection from the class node to the member, found again in the member's list",C+"class/entity.go")],
  ["internal/abstract/class Entity, through a harness package laid over the module"])
p("C25","Each layer stores and returns its own values",
  "At the layers of characters, words, phrases and details: a value provided (a character, a word without blanks, a phrase of words, a pair of phrases) is extracted from the entity just as it was given; providing an equal value again, through the same repository or a new one, leads to the same entity and adds no node; and at any time the values extracted from the members of a layer's class are the beginnings of all that was ever stored, each exactly once: the bit strings that begin a character, the words and phrases that begin a stored word or phrase, the pairs themselves.",
  ["inputs","histories"],"every value of every layer, every history of the public operations and of the layers' own",
  "The tests of the layers extract a handful of values, each from an empty storage, and provide none of them twice.",
  [C+"character/repository.go",C+"character/aggregate.go",C+"word/repository.go",C+"word/aggregate.go",C+"phrase/repository.go",C+"phrase/aggregate.go",C+"detail/repository.go",C+"detail/aggregate.go",C+"bit/layer.go"],
  [("each layer a tree of continuations over the layer below",C+"*/element.go")],
  ["internal/abstract layers' Repository Provide and Fetch, Aggregate Extract and GetObjectAndProperty, through a harness package laid over the module"])
p("C26","An operation is over when it returns",
  "When an operation of a graph, a remark or an output returns, whether with success or not, nothing of it goes on: it has called the storage only from the goroutine it was called on, it leaves no goroutine running, and neither the graph, the output or a remark nor the library keeps memory for it, so that a process may go on for any number of operations with the memory its storage needs.",
  ["histories","inputs","fault_sequences"],"every operation in every history of any length, with failures and refusals",
  "Each test performs a handful of operations and ends; neither goroutines nor memory are looked at.",
  ["graph.go","remark.go","output.go",C+"class/repository.go",C+"bit/layer.go",C+"story/aggregate.go",C+"fact/aggregate.go"],
  [("handles keep what they need to reach the storage, nothing they have read",C+"**")],
  ["stack of every storage call","stacks of all goroutines after an operation","memory in use after histories of two lengths"])
p("C27","A storage failure reaches the caller as itself",
  "The error an operation returns because a call to the storage failed is the error of that call, or wraps it: errors.Is finds the storage's own error value in it, whichever call of whichever operation failed, so that a caller can tell a lost connection from a full disk and from a refused text. An operation refused while the storage works returns no error of the storage.",
  ["fault_sequences","inputs"],"every operation, every single storage call it makes as the failing one, and every refused input",
  "The storage used by the tests never fails.",
  [C+"character/repository.go",C+"word/repository.go",C+"phrase/repository.go",C+"detail/repository.go",C+"fact/aggregate.go",C+"remark/aggregate.go",C+"story/aggregate.go",C+"class/entity.go","graph.go","output.go"],
  [("errors are passed up unchanged",C+"**")],
  ["error value returned by the operation, compared with the values of the calls that failed within it"])
p("C28","Stored graphs stay readable",
  "A storage filled by an earlier build of the library is read by the present one as it was stored: every remark identifier handed out then names the same remark with the same texts, the same navigation, next remark and rendering; nothing is added by reading it; texts stored then are found and shared when they are stored again, and every operation may go on from there.",
  ["histories","inputs"],"every history of operations whose content a storage kept, whatever the order it lists connections in",
  "Every test starts from an empty storage and reads with the code that wrote, so a change made to both sides alike shows nowhere.",
  [C+"class/repository.go",C+"bit/layer.go",C+"character/factory.go",C+"word/factory.go",C+"phrase/factory.go",C+"detail/storage.go",C+"fact/repository.go",C+"fact/storage.go",C+"remark/storage.go",C+"story/storage.go"],
  [("which connection goes which way between which nodes is the stored format",C+"*/entity.go")],
  ["recorded contents of storages opened with the present code: texts, navigation, rendering, nodes added"])
p("C29","Readers beside a writer see whole operations",
  "While one goroutine adds stories, facts, remarks and children through its own handle, others may fetch remarks, read texts, navigate and render through handles of their own that have completed one reading before: every answer is one that was right at some moment between the start and the end of that reading operation, no reading fails because of the writer, a remark that is reached before the writer has returned it is whole already, and the writer stores just what it would store alone. There is no data race but those in the storage itself.",
  ["schedules","histories"],"every interleaving of the storage calls of one writer and several readers",
  "No test has more than one goroutine, and none reads while an operation is under way.",
  ["graph.go","remark.go","output.go",C+"fact/aggregate.go",C+"story/aggregate.go",C+"fact/repository.go",C+"story/repository.go",C+"remark/repository.go",C+"detail/repository.go"],
  [("an operation becomes visible by its last link, everything below is complete by then",C+"fact/aggregate.go, "+C+"story/aggregate.go")],
  ["answers of reading operations with the number of the writer's operations begun and done at their start and end; Go race detector"])
p("C30","A panic of the storage reaches the caller and spoils nothing",
  "If a call to the storage panics, that panic, with its value, reaches whoever called the operation: it is neither swallowed nor turned into an answer. If the caller recovers and the storage works again, the same graph, remarks and output can be used on: what existed before shows as before, or as it would had the operation been completed, and the same operation and every other one succeed with right results.",
  ["fault_sequences","histories"],"every operation, every single storage call it makes as the panicking one, before or after its effect",
  "The storage used by the tests never panics.",
  ["graph.go","remark.go","output.go",C+"**"],
  [("no recovery from panics and no state held across storage calls",C+"**")],
  ["value recovered by the caller; observations and operations afterwards"])
p("C31","Nothing but the storage is touched",
  "The operations deal with the storage they were given and with nothing else outside the memory of the process: they open, read or write no file, standard stream or socket, start no process and never end their own, and they change neither the environment nor the working directory, the signal handling, the limits of the runtime or the settings of the standard library, whether they succeed, are refused or fail.",
  ["histories","inputs","fault_sequences"],"every operation in every history, with refusals, failures and panics of the storage",
  "Tests compare return values only; what is printed, opened or set meanwhile goes unnoticed.",
  ["graph.go","remark.go","output.go",C+"**"],
  [("the package depends on fmt, strings, bytes and unicode/utf8 only","*.go")],
  ["system calls of the process between the first and the last operation (strace), its standard streams, its settings before and after"])
p("C32","Nodes of others in the storage are left alone",
  "A storage may be used by others at the same time: from the moment the nodes of the classes exist, nodes of others may appear between any two storage calls, also within one operation, and be connected with each other, refer to each other and be disconnected. No operation reads, connects, refers with, changes or removes such a node, or finds it as one of its own, whatever identifiers it and its neighbours have; an identifier of such a node is refused as a remark; and the same history gives the same remarks, texts, navigation and renderings, and the same content of its own nodes, as it gives on a storage of its own.",
  ["histories","schedules","inputs"],"every history of operations, every amount, place and identifier of nodes of others between its storage calls",
  "Tests run alone on storages where every node is semnet's and each new identifier is the next number.",
  [C+"class/repository.go",C+"bit/layer.go",C+"character/factory.go",C+"word/factory.go",C+"phrase/factory.go",C+"detail/storage.go",C+"fact/storage.go",C+"remark/storage.go",C+"remark/repository.go",C+"story/storage.go","graph.go"],
  [("own nodes are told from others by their connections only, from the classes' nodes 1 to 8",C+"class/repository.go")],
  ["storage calls given identifiers semnet was not handed out; content of the nodes of others; observations and own content against a run alone"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
