def add(prop, ENV, HOST):
    DOM = ("Exhaustive within the stated families of renderings, messages and interleavings. The Rust side runs on the Lunatic host model (/verif/mc/src/host.rs); "
           "the client script is the one the server hands out, run in Node over a stand-in for the browser's document (/verif/harness/live/dom.js). ")
    live = [{"harness": "live"}]
    prop("V01", "The browser shows exactly what the component renders",
         "Provided each rendering gives its elements different ids and keyed siblings different keys: after any sequence of updates of a LiveView component, the page shows the latest rendering: the same elements in the same order and nesting, with their tag names, attributes, texts and ids, and nothing else. Elements that stay from one rendering to the next (same key, or same place among siblings without keys, and same tag name) stay the same nodes of the page. Texts, attribute values and names may be any strings.",
         ["inputs", "histories"], "every sequence of renderings: every pair of trees, and every way from one to the other",
         "The repository's tests compare a few hand-written changesets, or apply them to a Rust stand-in for the page; the client script is never run, and pairs of trees are not enumerated.",
         ["puck_liveview/src/dom/element/diff/mod.rs", "puck_liveview/src/dom/element/diff/changeset/mod.rs", "puck_liveview/src/dom/element/diff/changeset/instruction_serializer.rs", "puck_liveview/client/index.js", "puck_liveview/src/component/mod.rs"],
         [("diff", "puck_liveview/src/dom/element/diff/mod.rs Element::diff"), ("instructions on the wire", "puck_liveview/src/dom/element/diff/changeset/instruction_serializer.rs"), ("the page's side", "puck_liveview/client/index.js ws.onmessage"), ("render, diff, send", "puck_liveview/src/component/mod.rs perform_diff")],
         ["the page's document after each message"], DOM, components=live,
         technique="explicit-state exploration: every pair (and short sequence) of renderings of enumerated families, through the real diff, wire format and client script",
         state=[("old_dom", "the rendering the page shows", "puck_liveview/src/component/mod.rs main_loop")])
    prop("V02", "User events reach exactly the right listener",
         "A click, submit or input on any element of the page invokes, once each, exactly the listeners that the rendering the page shows gives to that element or to the elements around it for that event, with the value that was typed, an element's own before those around it and otherwise in the order in which they are listed; other events invoke nothing. This stays true after any sequence of renderings that add, remove, rename or move listeners and elements. A message from the client that names no listener of the current rendering, lacks the value an input needs, or is not such a message at all is ignored. Submitting a form that is listened to does not leave the page.",
         ["inputs", "histories"], "every event on every element after every enumerated sequence of renderings; every client message of a hostile alphabet", "No test runs the client script or sends a client message to a component.",
         ["puck_liveview/client/index.js", "puck_liveview/src/component/mod.rs", "puck_liveview/src/client/mod.rs", "puck_liveview/src/dom/listener.rs"],
         [("attachListener/removeListeners", "puck_liveview/client/index.js"), ("dispatch of client messages", "puck_liveview/src/component/mod.rs main_loop"), ("ClientMessage", "puck_liveview/src/client")],
         ["messages the page sends", "inputs the component is updated with"], DOM, components=live,
         technique="explicit-state exploration: every event on every element after every enumerated sequence of renderings, through the real client script and component loop")
    prop("V03", "Every input updates the component once, in order, and is shown",
         "Everything sent to a LiveView component (events of its client, messages to the process returned by `manage` or by its context, from any process) is applied by exactly one update; updates from one source happen in the order in which they were sent. After each update the page is brought up to date, so that it passes through the renderings in order and ends with the last one.",
         ["schedules", "histories"], "every interleaving of the senders, the client and the component's processes", "No test starts a component, let alone several senders at once.",
         ["puck_liveview/src/component/mod.rs"], [("forwarding process", "puck_liveview/src/component/mod.rs manage"), ("main loop", "puck_liveview/src/component/mod.rs main_loop")],
         ["calls of Component::update", "messages on the WebSocket"], DOM, components=live,
         technique="exhaustive interleaving exploration (source-set DPOR) of the real component processes on a model of the Lunatic host",
         state=[("mailboxes", "inputs not yet applied", "puck_liveview/src/component/mod.rs")])
    prop("V04", "A component lives exactly as long as its client stays",
         "While its client stays connected a component keeps working, whatever else the client sends (pings, malformed messages, unknown listeners); every frame the server sends on the connection is whole and pings are answered by their pongs. However and whenever the client leaves (close frame, abrupt close, reset, protocol violation, failing reads or writes, also before the first paint or in the middle of a frame), the component is dropped, exactly once, the connection is released, and no process panics, keeps working or goes on reading.",
         ["schedules", "fault_sequences", "crash_points"], "every point at which the client can leave, every failing operation, every interleaving", "No test connects a client to a component or disconnects one.",
         ["puck_liveview/src/component/mod.rs", "puck/src/ws/websocket.rs", "puck/src/ws/send.rs"], [("reading process", "puck_liveview/src/component/mod.rs manage"), ("end of the main loop", "puck_liveview/src/component/mod.rs main_loop"), ("whole frames", "puck/src/ws/send.rs")],
         ["drops of the component", "processes left", "bytes on the connection"], DOM + "The forwarding process that stays behind, and pongs written into the middle of frames, are recorded findings.", components=live,
         technique="exhaustive interleaving (source-set DPOR), cut and fault exploration of the real component processes on a model of the Lunatic host")
    prop("V05", "Wrapped malvolio tags become the elements they describe",
         "A tree built from malvolio tags with `wrap`, `listener`, `child` and `children` becomes an element tree of the same shape: each element has its tag's name, attributes and text, its listeners and its children in order. Ids given out by one generator are never given out twice. The page then shows that tree, and its listeners are heard.",
         ["inputs"], "every kind of tag, inside every kind, with every number of attributes, listeners and children up to the bound", "The tests convert three trees of divs, a heading and inputs.",
         ["puck_liveview/src/html/mod.rs", "puck_liveview/src/html/id.rs"], [("into_element", "puck_liveview/src/html/mod.rs WrappedBodyNode::into_element"), ("ids", "puck_liveview/src/html/id.rs IdGen")],
         ["Element trees", "the page's document"], DOM + "Text nodes and children given to a tag before it is wrapped are recorded findings.", components=live,
         technique="explicit-state exploration: every tree of tags within the bounds, through the real conversion, diff and client script")
    prop("V06", "A changeset leads from one rendering to the next",
         "With the `apply` feature, applying the changeset `old.diff(Some(&new))` to `old` gives `new`: the same elements in the same order and nesting with the same names, ids, attributes, texts and listeners (keys are not carried), and applied to what earlier changesets led to, it leads on to the next. A changeset between equal renderings is empty. This holds for all trees whose elements have different ids and whose keyed siblings have different keys.",
         ["inputs", "histories"], "every pair of trees of the enumerated families, and sequences of them", "The repository's tests apply the changesets of a few fixed pairs of trees that a fuzzer once found.",
         ["puck_liveview/src/dom/element/diff/mod.rs", "puck_liveview/src/dom/element/diff/changeset/apply.rs", "puck_liveview/src/dom/element/diff/changeset/mod.rs"],
         [("diff", "puck_liveview/src/dom/element/diff/mod.rs Element::diff"), ("apply", "puck_liveview/src/dom/element/diff/changeset/apply.rs Changeset::apply")],
         ["Element trees"], "Exhaustive within the stated families of renderings; the real diff and apply functions. ", components=live,
         technique="explicit-state exploration: every pair (and short sequence) of renderings of enumerated families, through the real diff and apply functions")
    prop("V07", "Each client of a LiveView page has a component of its own",
         "Every client is shown a component that was made from exactly the data given to `manage`, whatever that data is. The events of a client, and the messages sent to the process `manage` or its context stands for, reach the component of that client and no other. Whatever other clients do (write, leave in any way, send garbage, ask for no upgrade, make their component panic), in whatever order and at whatever time, a client's page is what it would be if it were alone.",
         ["schedules", "inputs", "fault_sequences"], "every set of clients and their behaviours, every interleaving of their processes, every piece of data a component is made from", "No test connects even one client to a component.",
         ["puck_liveview/src/component/mod.rs", "puck/src/core/mod.rs", "puck/src/ws/upgrade.rs"],
         [("data handed to the component's process", "puck_liveview/src/component/mod.rs manage"), ("process per connection", "puck/src/core/mod.rs")],
         ["pages of the clients", "calls of Component::new and update"], DOM, components=live,
         technique="exhaustive interleaving exploration (source-set DPOR) of the real server and component processes on a model of the Lunatic host")
    prop("A02", "Chat messages reach everyone present, exactly once",
         "In the chat example, every message a registered user sends is shown exactly once, in the sender's order and under the sender's name and id, on the page of everyone who is registered at that time and stays, the sender included, and on no page of somebody who registers later. Users present at the same time have different ids. Who joins, writes or leaves at the same time, and how, makes no difference to the others. The page, its script and its WebSocket are served where they look for each other.",
         ["schedules", "histories", "inputs"], "every history of joining, writing and leaving of a few users, and every interleaving of concurrent ones", "The example has no tests; its guarantees only show across several clients and their processes.",
         ["examples/chat/src/main.rs", "puck_liveview/src/component/mod.rs", "puck_liveview/src/init.rs", "puck/src/core/mod.rs"],
         [("coordinator", "examples/chat/src/main.rs ChatServerState"), ("user ids", "examples/chat/src/main.rs UserIdCreator"), ("page and script", "puck_liveview/src/init.rs")],
         ["pages of the users"], DOM, components=live,
         technique="exhaustive interleaving exploration (source-set DPOR) of the real application on a model of the Lunatic host, its pages shown by the real client script",
         state=[("users", "who is registered", "examples/chat/src/main.rs ChatServerState")])
