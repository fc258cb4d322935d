// A browser as far as the LiveView client can see it: one document, one WebSocket, events that
// bubble. Reads one JSON request per line and answers each with one line.
"use strict";

let serial = 0;
let listenersRun = 0;

class DOMException2 extends Error {}

class EventTarget2 {
    constructor() {
        this._l = [];
    }
    addEventListener(type, f, opt) {
        if (f === null || f === undefined) return;
        const capture = !!(typeof opt === "object" && opt ? opt.capture : opt);
        if (this._l.some((l) => l.type === type && l.f === f && l.capture === capture)) return;
        this._l.push({ type, f, capture, once: !!(opt && opt.once) });
    }
    removeEventListener(type, f, opt) {
        const capture = !!(typeof opt === "object" && opt ? opt.capture : opt);
        this._l = this._l.filter((l) => !(l.type === type && l.f === f && l.capture === capture));
    }
    _run(e, phase) {
        e.currentTarget = this;
        for (const l of this._l.slice()) {
            if (l.type !== e.type || !this._l.includes(l) || e._stopNow) continue;
            if (phase === "capture" ? !l.capture : phase === "bubble" ? l.capture : false) continue;
            if (l.once) this._l = this._l.filter((x) => x !== l);
            listenersRun++;
            if (typeof l.f === "function") l.f.call(this, e);
            else l.f.handleEvent(e);
        }
        const on = this["on" + e.type];
        if (phase !== "capture" && typeof on === "function" && !e._stopNow) {
            listenersRun++;
            if (on.call(this, e) === false) e.preventDefault();
        }
    }
}

class Event2 {
    constructor(type, init) {
        this.type = type;
        Object.assign(this, { bubbles: false, cancelable: false }, init || {});
        this.defaultPrevented = false;
        this._stop = false;
        this._stopNow = false;
    }
    preventDefault() {
        if (this.cancelable) this.defaultPrevented = true;
    }
    stopPropagation() {
        this._stop = true;
    }
    stopImmediatePropagation() {
        this._stop = this._stopNow = true;
    }
}

class Node2 extends EventTarget2 {
    constructor() {
        super();
        this.childNodes = [];
        this.parentNode = null;
        this._n = ++serial;
    }
    get parentElement() {
        return this.parentNode && this.parentNode.nodeType === 1 ? this.parentNode : null;
    }
    get ownerDocument() {
        return documentOf;
    }
    get firstChild() {
        return this.childNodes[0] || null;
    }
    get lastChild() {
        return this.childNodes[this.childNodes.length - 1] || null;
    }
    _beside(d) {
        if (!this.parentNode) return null;
        const c = this.parentNode.childNodes;
        return c[c.indexOf(this) + d] || null;
    }
    get nextSibling() {
        return this._beside(1);
    }
    get previousSibling() {
        return this._beside(-1);
    }
    get isConnected() {
        let n = this;
        while (n.parentNode) n = n.parentNode;
        return n === documentOf;
    }
    hasChildNodes() {
        return this.childNodes.length > 0;
    }
    contains(o) {
        while (o) {
            if (o === this) return true;
            o = o.parentNode;
        }
        return false;
    }
    insertBefore(node, before) {
        if (!(node instanceof Node2)) throw new TypeError("insertBefore: not a node");
        if (before === undefined) throw new TypeError("insertBefore: 2 arguments required");
        if (this.nodeType === 3) throw new DOMException2("HierarchyRequestError");
        if (node.contains(this)) throw new DOMException2("HierarchyRequestError");
        if (before && before.parentNode !== this) throw new DOMException2("NotFoundError");
        if (node.nodeType === 11) {
            for (const c of node.childNodes.slice()) this.insertBefore(c, before);
            return node;
        }
        if (before === node) before = node.nextSibling;
        if (node.parentNode) node.parentNode.removeChild(node);
        const at = before ? this.childNodes.indexOf(before) : this.childNodes.length;
        this.childNodes.splice(at, 0, node);
        node.parentNode = this;
        return node;
    }
    appendChild(node) {
        return this.insertBefore(node, null);
    }
    removeChild(node) {
        if (!(node instanceof Node2)) throw new TypeError("removeChild: not a node");
        const at = this.childNodes.indexOf(node);
        if (at < 0) throw new DOMException2("NotFoundError");
        this.childNodes.splice(at, 1);
        node.parentNode = null;
        return node;
    }
    replaceChild(node, old) {
        if (!(node instanceof Node2)) throw new TypeError("replaceChild: not a node");
        if (!old || old.parentNode !== this) throw new DOMException2("NotFoundError");
        if (node === old) return old;
        let next = old.nextSibling;
        if (next === node) next = node.nextSibling;
        this.removeChild(old);
        this.insertBefore(node, next);
        return old;
    }
    _nodes(xs) {
        return xs.map((x) => (x instanceof Node2 ? x : documentOf.createTextNode(String(x))));
    }
    append(...xs) {
        for (const x of this._nodes(xs)) this.appendChild(x);
    }
    prepend(...xs) {
        const f = this.firstChild;
        for (const x of this._nodes(xs)) this.insertBefore(x, f);
    }
    replaceChildren(...xs) {
        for (const c of this.childNodes.slice()) this.removeChild(c);
        this.append(...xs);
    }
    before(...xs) {
        if (this.parentNode) for (const x of this._nodes(xs)) this.parentNode.insertBefore(x, this);
    }
    after(...xs) {
        const p = this.parentNode;
        let at = this.nextSibling;
        if (p) for (const x of this._nodes(xs)) p.insertBefore(x, at);
    }
    remove() {
        if (this.parentNode) this.parentNode.removeChild(this);
    }
    replaceWith(...xs) {
        const p = this.parentNode;
        if (!p) return;
        const next = this.nextSibling;
        p.removeChild(this);
        for (const x of this._nodes(xs)) p.insertBefore(x, next);
    }
    normalize() {}
    get textContent() {
        return this.childNodes.map((c) => c.textContent).join("");
    }
    set textContent(v) {
        for (const c of this.childNodes.slice()) this.removeChild(c);
        v = v === null ? "" : String(v);
        if (v !== "") this.appendChild(documentOf.createTextNode(v));
    }
    dispatchEvent(e) {
        e.target = this;
        const path = [];
        for (let n = this; n; n = n.parentNode) path.push(n);
        path.push(windowOf);
        for (const n of path.slice(1).reverse()) if (!e._stop) n._run(e, "capture");
        if (!e._stop) this._run(e, "target");
        if (e.bubbles) for (const n of path.slice(1)) if (!e._stop) n._run(e, "bubble");
        return !e.defaultPrevented;
    }
    *_elements() {
        for (const c of this.childNodes) {
            if (c.nodeType === 1) {
                yield c;
                yield* c._elements();
            }
        }
    }
    get children() {
        return this.childNodes.filter((c) => c.nodeType === 1);
    }
    get firstElementChild() {
        return this.children[0] || null;
    }
    get lastElementChild() {
        return this.children[this.children.length - 1] || null;
    }
    get childElementCount() {
        return this.children.length;
    }
    querySelectorAll(sel) {
        const m = matcher(sel);
        return [...this._elements()].filter(m);
    }
    querySelector(sel) {
        return this.querySelectorAll(sel)[0] || null;
    }
    getElementsByTagName(t) {
        return [...this._elements()].filter((e) => t === "*" || e.localName === t.toLowerCase());
    }
}
for (const c of [Node2, Node2.prototype])
    Object.assign(c, { ELEMENT_NODE: 1, ATTRIBUTE_NODE: 2, TEXT_NODE: 3, COMMENT_NODE: 8, DOCUMENT_NODE: 9, DOCUMENT_FRAGMENT_NODE: 11 });

function matcher(sel) {
    const parts = String(sel).split(",").map((s) => s.trim());
    return (e) =>
        parts.some((s) => {
            let m;
            if ((m = /^#((?:\\.|[^\\])+)$/.exec(s))) {
                const id = m[1].replace(/\\([0-9a-fA-F]{1,6}) ?/g, (_, h) => String.fromCodePoint(parseInt(h, 16))).replace(/\\(.)/g, "$1");
                return e.id === id;
            }
            if ((m = /^([a-z0-9]*)\[([^=\]]+)(?:=["']?([^"'\]]*)["']?)?\]$/i.exec(s)))
                return (!m[1] || e.localName === m[1]) && e.hasAttribute(m[2]) && (m[3] === undefined || e.getAttribute(m[2]) === m[3]);
            if (/^[a-z0-9]+$/i.test(s)) return e.localName === s.toLowerCase();
            if (s === "*") return true;
            throw new Error("the stand-in for the browser does not know the selector " + s);
        });
}

class Text2 extends Node2 {
    constructor(data) {
        super();
        this.nodeType = 3;
        this.nodeName = "#text";
        this.data = String(data);
    }
    get nodeValue() {
        return this.data;
    }
    set nodeValue(v) {
        this.data = v === null ? "" : String(v);
    }
    get textContent() {
        return this.data;
    }
    set textContent(v) {
        this.nodeValue = v;
    }
    get wholeText() {
        return this.data;
    }
    get length() {
        return this.data.length;
    }
    cloneNode() {
        return new Text2(this.data);
    }
}

class Attr2 {
    constructor(name, value) {
        this.name = this.nodeName = this.localName = name;
        this.value = value;
        this.nodeType = 2;
        this.specified = true;
    }
    get nodeValue() {
        return this.value;
    }
    set nodeValue(v) {
        this.value = String(v);
    }
    get textContent() {
        return this.value;
    }
}

class Attributes2 extends Array {
    item(i) {
        return this[i] || null;
    }
    getNamedItem(n) {
        return this.find((a) => a.name === n) || null;
    }
    setNamedItem(a) {
        const old = this.getNamedItem(a.name);
        if (old) old.value = a.value;
        else this.push(a);
        return old;
    }
    removeNamedItem(n) {
        const at = this.findIndex((a) => a.name === n);
        if (at < 0) throw new DOMException2("NotFoundError");
        return this.splice(at, 1)[0];
    }
    static get [Symbol.species]() {
        return Array;
    }
}

const VOID = ["br", "img", "input", "hr", "link", "meta"];
const escText = (s) => s.replace(/&/g, "&amp;").replace(/</g, "&lt;").replace(/>/g, "&gt;");
const escAttr = (s) => s.replace(/&/g, "&amp;").replace(/"/g, "&quot;");
const unesc = (s) => s.replace(/&(lt|gt|quot|amp|#39);/g, (_, x) => ({ lt: "<", gt: ">", quot: '"', amp: "&", "#39": "'" })[x]);

class Element2 extends Node2 {
    constructor(name) {
        super();
        this.nodeType = 1;
        this.localName = name;
        this.attributes = new Attributes2();
        const self = this;
        this.dataset = new Proxy(
            {},
            {
                get: (_, k) => (self.hasAttribute("data-" + String(k)) ? self.getAttribute("data-" + String(k)) : undefined),
                set: (_, k, v) => (self.setAttribute("data-" + String(k), v), true),
                has: (_, k) => self.hasAttribute("data-" + String(k)),
                deleteProperty: (_, k) => (self.removeAttribute("data-" + String(k)), true),
            },
        );
    }
    get tagName() {
        return this.localName.toUpperCase();
    }
    get nodeName() {
        return this.tagName;
    }
    get nodeValue() {
        return null;
    }
    _name(n) {
        n = String(n).toLowerCase();
        if (n === "" || /[\s=>\/\0]/.test(n)) throw new DOMException2("InvalidCharacterError: attribute " + JSON.stringify(n));
        return n;
    }
    setAttribute(n, v) {
        if (arguments.length < 2) throw new TypeError("setAttribute: 2 arguments required");
        n = this._name(n);
        const a = this.attributes.getNamedItem(n);
        if (a) a.value = String(v);
        else this.attributes.push(new Attr2(n, String(v)));
    }
    setAttributeNode(a) {
        return this.attributes.setNamedItem(new Attr2(a.name, a.value));
    }
    getAttributeNode(n) {
        return this.attributes.getNamedItem(String(n).toLowerCase());
    }
    getAttribute(n) {
        const a = this.attributes.getNamedItem(String(n).toLowerCase());
        return a ? a.value : null;
    }
    hasAttribute(n) {
        return this.getAttribute(n) !== null;
    }
    hasAttributes() {
        return this.attributes.length > 0;
    }
    getAttributeNames() {
        return [...this.attributes].map((a) => a.name);
    }
    removeAttribute(n) {
        n = String(n).toLowerCase();
        if (this.hasAttribute(n)) this.attributes.removeNamedItem(n);
    }
    toggleAttribute(n, force) {
        const want = force === undefined ? !this.hasAttribute(n) : force;
        if (!want) this.removeAttribute(n);
        else if (!this.hasAttribute(n)) this.setAttribute(n, "");
        return want;
    }
    get id() {
        return this.getAttribute("id") || "";
    }
    set id(v) {
        this.setAttribute("id", v);
    }
    get className() {
        return this.getAttribute("class") || "";
    }
    set className(v) {
        this.setAttribute("class", v);
    }
    get value() {
        if (this._value !== undefined) return this._value;
        return ["input", "textarea", "select", "button", "option"].includes(this.localName) ? this.getAttribute("value") || "" : undefined;
    }
    set value(v) {
        this._value = String(v);
    }
    get innerText() {
        return this.textContent;
    }
    set innerText(v) {
        this.textContent = v;
    }
    get innerHTML() {
        return this.childNodes.map((c) => (c.nodeType === 3 ? escText(c.data) : c.outerHTML)).join("");
    }
    get outerHTML() {
        const a = [...this.attributes].map((x) => ` ${x.name}="${escAttr(x.value)}"`).join("");
        return `<${this.localName}${a}>` + (VOID.includes(this.localName) ? "" : this.innerHTML + `</${this.localName}>`);
    }
    set innerHTML(html) {
        for (const c of this.childNodes.slice()) this.removeChild(c);
        const re = /<\/([a-z0-9]+)>|<([a-z0-9]+)((?:\s+[^\s=>]+="[^"]*")*)\s*>|([^<]+)/gi;
        const stack = [this];
        let m;
        while ((m = re.exec(html))) {
            const top = stack[stack.length - 1];
            if (m[1]) {
                if (stack.length > 1) stack.pop();
            } else if (m[2]) {
                const e = documentOf.createElement(m[2]);
                for (const a of m[3].matchAll(/([^\s=>]+)="([^"]*)"/g)) e.setAttribute(a[1], unesc(a[2]));
                top.appendChild(e);
                if (!VOID.includes(e.localName)) stack.push(e);
            } else top.appendChild(documentOf.createTextNode(unesc(m[4])));
        }
    }
    insertAdjacentElement(where, e) {
        if (where === "beforebegin") this.before(e);
        else if (where === "afterbegin") this.prepend(e);
        else if (where === "beforeend") this.append(e);
        else this.after(e);
        return e;
    }
    insertAdjacentText(where, t) {
        this.insertAdjacentElement(where, documentOf.createTextNode(t));
    }
    cloneNode(deep) {
        const e = new Element2(this.localName);
        for (const a of this.attributes) e.setAttribute(a.name, a.value);
        if (deep) for (const c of this.childNodes) e.appendChild(c.cloneNode(true));
        return e;
    }
    matches(sel) {
        return matcher(sel)(this);
    }
    closest(sel) {
        for (let n = this; n && n.nodeType === 1; n = n.parentNode) if (n.matches(sel)) return n;
        return null;
    }
    get nextElementSibling() {
        let n = this.nextSibling;
        while (n && n.nodeType !== 1) n = n.nextSibling;
        return n;
    }
    get previousElementSibling() {
        let n = this.previousSibling;
        while (n && n.nodeType !== 1) n = n.previousSibling;
        return n;
    }
    click() {
        this.dispatchEvent(new Event2("click", { bubbles: true, cancelable: true }));
    }
    focus() {}
    blur() {}
}

class Fragment2 extends Node2 {
    constructor() {
        super();
        this.nodeType = 11;
        this.nodeName = "#document-fragment";
    }
}

class Document2 extends Node2 {
    constructor() {
        super();
        this.nodeType = 9;
        this.nodeName = "#document";
        this.readyState = "loading";
    }
    build() {
        this.documentElement = this.appendChild(this.createElement("html"));
        this.head = this.documentElement.appendChild(this.createElement("head"));
        this.body = this.documentElement.appendChild(this.createElement("body"));
    }
    createElement(n) {
        n = String(n).toLowerCase();
        if (!/^[a-z][^\s\/>\0]*$/.test(n)) throw new DOMException2("InvalidCharacterError: element " + JSON.stringify(n));
        return new Element2(n);
    }
    createTextNode(t) {
        return new Text2(t);
    }
    createDocumentFragment() {
        return new Fragment2();
    }
    createEvent() {
        return new Event2("");
    }
    getElementById(id) {
        id = String(id);
        for (const e of this._elements()) if (e.id === id && id !== "") return e;
        return null;
    }
}

let documentOf = null;
let windowOf = null;
let socket = null;
let sockets = 0;
let sent = [];
let timers = [];

class WebSocket2 extends EventTarget2 {
    constructor(url) {
        super();
        this.url = String(url);
        this.readyState = 1;
        socket = this;
        sockets++;
    }
    send(x) {
        sent.push(String(x));
    }
    close() {
        this.readyState = 3;
    }
}
for (const c of [WebSocket2, WebSocket2.prototype]) Object.assign(c, { CONNECTING: 0, OPEN: 1, CLOSING: 2, CLOSED: 3 });

const quiet = new Proxy({}, { get: () => () => {} });
let program = null;

function drain() {
    for (let i = 0; timers.length && i < 1000; i++) timers.shift()();
}

function reset(href) {
    serial = 0;
    sockets = 0;
    socket = null;
    sent = [];
    timers = [];
    documentOf = new Document2();
    documentOf.build();
    windowOf = new EventTarget2();
    const u = new URL(href);
    const location = { href: u.href, host: u.host, hostname: u.hostname, port: u.port, pathname: u.pathname, protocol: u.protocol, origin: u.origin, search: u.search, hash: u.hash };
    documentOf.location = location;
    const timer = (f, _t, ...a) => (timers.push(() => f(...a)), timers.length);
    Object.assign(windowOf, {
        document: documentOf, location, WebSocket: WebSocket2, console: quiet, Node: Node2, Text: Text2, Element: Element2, HTMLElement: Element2,
        Event: Event2, setTimeout: timer, clearTimeout() {}, requestAnimationFrame: timer, queueMicrotask: timer, navigator: { userAgent: "" },
    });
    windowOf.window = windowOf.self = windowOf.globalThis = windowOf;
    const names = Object.keys(windowOf).filter((k) => /^[A-Za-z]/.test(k));
    program(names)(...names.map((n) => windowOf[n]));
    documentOf.readyState = "complete";
    for (const t of ["DOMContentLoaded", "load"]) {
        const e = new Event2(t);
        if (t[0] === "D") documentOf.dispatchEvent(e);
        else windowOf._run(e, "target");
    }
    drain();
    if (socket) {
        socket._run(Object.assign(new Event2("open"), { target: socket }), "target");
        drain();
    }
}

function dump(n) {
    if (n.nodeType === 3) return n.data;
    const c = [];
    for (const k of n.childNodes) {
        const d = dump(k);
        if (typeof d === "string" && (d === "" || typeof c[c.length - 1] === "string")) {
            if (d !== "") c[c.length - 1] += d;
        } else c.push(d);
    }
    const a = {};
    for (const x of n.attributes) a[x.name] = x.value;
    return { t: n.localName, n: n._n, a, c };
}

// The element at a path of element indices below the body.
function at(path) {
    let e = documentOf.body;
    for (const i of path) e = e.children[i];
    return e;
}

function step(op) {
    if (op.reset !== undefined) {
        let err = null;
        try {
            reset(op.reset);
        } catch (e) {
            err = String(e);
        }
        return { err, url: socket ? socket.url : null, sockets };
    }
    if (op.msg !== undefined) {
        let err = null;
        try {
            if (!socket) throw new Error("the page opened no WebSocket");
            socket._run(Object.assign(new Event2("message"), { data: op.msg, target: socket }), "target");
            drain();
        } catch (e) {
            err = String(e && e.stack ? e.stack.split("\n").slice(0, 2).join(" | ") : e);
        }
        const out = { err, sent, dom: dump(documentOf.body).c };
        sent = [];
        return out;
    }
    if (op.event !== undefined) {
        let err = null;
        let stay = true;
        const e = new Event2(op.event, { bubbles: true, cancelable: op.event !== "input" });
        listenersRun = 0;
        try {
            const el = at(op.path);
            if (op.value !== undefined) el.value = op.value;
            stay = !el.dispatchEvent(e);
            drain();
        } catch (x) {
            err = String(x && x.stack ? x.stack.split("\n").slice(0, 2).join(" | ") : x);
        }
        const out = { err, sent, prevented: stay, ran: listenersRun };
        sent = [];
        return out;
    }
    throw new Error("unknown request");
}

let buffer = "";
const fs = require("fs");
const chunk = Buffer.alloc(1 << 16);
let rest = Buffer.alloc(0);

function lines() {
    for (;;) {
        let n;
        try {
            n = fs.readSync(0, chunk, 0, chunk.length, null);
        } catch (e) {
            if (e.code === "EAGAIN") continue;
            if (e.code === "EOF") return;
            throw e;
        }
        if (n === 0) return;
        rest = Buffer.concat([rest, chunk.subarray(0, n)]);
        let i;
        while ((i = rest.indexOf(10)) >= 0) {
            const line = rest.subarray(0, i).toString("utf8");
            rest = rest.subarray(i + 1);
            handle(line);
        }
    }
}

function handle(line) {
    const req = JSON.parse(line);
    let out;
    if (req.script !== undefined) {
        const script = req.script;
        let f = null;
        program = (names) => (f = f || new Function(...names, script));
        out = "ready";
    } else {
        out = req.map(step);
    }
    const b = Buffer.from(JSON.stringify(out) + "\n");
    let o = 0;
    while (o < b.length) {
        try {
            o += fs.writeSync(1, b, o);
        } catch (e) {
            if (e.code !== "EAGAIN") throw e;
        }
    }
}

lines();
