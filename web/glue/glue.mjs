// glue.mjs DIR MODULE FUNCTION: runs the real JavaScript of the front end (DIR/MODULE) against a recording stand-in of
// the browser or of tauri, over every answer and every order of events within the bounds. Prints {"runs", "steps",
// "error"} as JSON.
import { readFileSync } from 'node:fs';

const [dir, module, fn] = process.argv.slice(2);
const source = readFileSync(`${dir}/${module}`, 'utf8');
process.on('unhandledRejection', () => {}); // a dismissed dialog in the browser; shown in the console only
globalThis.window = globalThis;
let runs = 0, steps = 0;

// A new instance of the module, in the present world
const load = () => import(`data:text/javascript;base64,${Buffer.from(source + `\n// ${runs}`).toString('base64')}`);
const turn = () => new Promise((r) => setImmediate(r));
async function settle(n = 4) { for (let i = 0; i < n; i++) await turn(); }
const same = (a, b) => JSON.stringify(a) === JSON.stringify(b);
function must(ok, text) { if (!ok) throw new Error(text); }
function deferred() { const d = {}; d.p = new Promise((r, j) => { d.resolve = r; d.reject = j; }); return d; }
function* words(alphabet, max) {
    let level = [[]];
    for (let n = 0; n <= max; n++) {
        yield* level;
        level = level.flatMap((w) => alphabet.map((a) => [...w, a]));
    }
}

// ---------------------------------------------------------------- commands of the desktop application

async function command(fn) {
    const channels = fn === 'compress_image' ? ['progress_callback', 'compress_callback'] : ['progress_callback'];
    const other = ['progress_callback', 'compress_callback', 'tauri://focus'];
    for (const reply of [null, undefined, 'an error', '', Error]) {
        for (const slow of [0, 3]) {          // turns which registering a listener takes
            for (const word of words(other, 4)) {
                for (const late of [0, 1, 2]) { // commands before this one, which are over
                    runs++;
                    const listeners = [], calls = [];
                    const listen = async (event, handler) => {
                        const l = { event, handler, on: false };
                        await settle(slow);
                        l.on = true;
                        listeners.push(l);
                        return () => { l.on = false; };
                    };
                    let order = 0;
                    const emit = (event, payload) => {
                        steps++;
                        for (const l of [...listeners]) if (l.on && l.event === event) l.handler({ event, windowLabel: 'main', id: 1, payload });
                    };
                    const invoke = (cmd, args) => {
                        const d = deferred();
                        calls.push({ cmd, args, d, ready: channels.every((c) => listeners.some((l) => l.on && l.event === c)) });
                        return d.p;
                    };
                    const w = { listen, label: 'main' };
                    window.__TAURI__ = {
                        invoke, tauri: { invoke }, event: { listen, emit: async () => {} },
                        window: { appWindow: w, getCurrent: () => w }, shell: { open: async () => {} },
                        dialog: {},
                    };
                    const m = await load();
                    for (let k = 0; k <= late; k++) {
                        const got = { progress_callback: [], compress_callback: [] };
                        const src = `/src ${k}`, dst = `/dst ${k}`;
                        const answer = {};
                        m[fn](src, dst, (p) => got.progress_callback.push(p), (p) => got.compress_callback.push(p))
                            .then((v) => { answer.value = v; answer.done = true; }, (e) => { answer.error = e; answer.done = true; });
                        await settle(slow * 3 + 4);
                        must(calls.length === k + 1, `${calls.length - k} calls of the application`);
                        const c = calls[k];
                        must(c.cmd === fn && same(c.args, { sourcePath: src, destPath: dst }), `called ${c.cmd} with ${JSON.stringify(c.args)}`);
                        must(c.ready, 'the command starts before its events are listened to');
                        const want = { progress_callback: [], compress_callback: [] };
                        for (const e of word) {
                            const payload = { n: order++ };
                            if (channels.includes(e)) want[e].push(payload);
                            emit(e, payload);
                        }
                        must(!answer.done, 'the operation ends before the command does');
                        must(same(got, want), `events ${JSON.stringify(want)} arrive as ${JSON.stringify(got)}`);
                        if (reply === Error) c.d.reject(reply); else c.d.resolve(reply);
                        await settle();
                        must(answer.done, 'the command has ended, but the operation has not');
                        if (reply === Error) must(answer.error === reply, 'a failed call is lost');
                        else must(!('error' in answer) && answer.value === reply, `the reply ${reply} arrives as ${answer.value}`);
                        for (const e of other) emit(e, { n: -1 });
                        must(same(got, want), 'events of a later command reach an operation that is over');
                    }
                }
            }
        }
    }
}

// ---------------------------------------------------------------- dialogs

const names = [undefined, null, 'game.xiso.iso', 'a b.xiso.iso'];

async function dialogs(fn) {
    for (const first of [null, '/chosen', '/another one', Error]) {
        for (const second of [null, '/chosen', '/another one', Error]) {
            for (const swapped of [false, true]) {
                for (const name of fn === 'showSaveFilePicker' ? names : [undefined]) {
                    runs++;
                    const asked = [];
                    const ask = (what) => (opts) => { const d = deferred(); asked.push({ what, opts: opts ?? {}, d }); steps++; return d.p; };
                    window.__TAURI__ = { dialog: { open: ask('open'), save: ask('save') } };
                    const m = await load();
                    const got = [[], []];
                    for (const k of [0, 1]) {
                        m[fn]((v) => got[k].push(v), name);
                        must(asked.length === k + 1, 'no dialog is shown');
                        const a = asked[k];
                        if (fn === 'showSaveFilePicker') {
                            must(a.what === 'save', 'the wrong dialog');
                            must((a.opts.defaultPath ?? null) === (name ?? null), `suggested ${a.opts.defaultPath}, not ${name}`);
                        } else {
                            must(a.what === 'open' && !a.opts.multiple && Boolean(a.opts.directory) === (fn === 'showDirectoryPicker'), `the wrong dialog ${JSON.stringify(a)}`);
                        }
                    }
                    await answers(asked, [first, second], swapped, got, (v) => v);
                }
            }
        }
    }
}

async function answers(asked, replies, swapped, got, form) {
    for (const k of swapped ? [1, 0] : [0, 1]) {
        if (replies[k] === Error) asked[k].d.reject(new DOMException('dismissed', 'AbortError')); else asked[k].d.resolve(form(replies[k]));
        await settle();
        const want = [0, 1].map((i) => (i === k || got[i].done) && replies[i] !== null && replies[i] !== Error ? [replies[i]] : []);
        got[k].done = true;
        for (const i of [0, 1]) must(got[i].length === want[i].length && got[i].every((v, j) => v === want[i][j]), `dialog ${i} was answered with ${String(replies[i])}, which arrives as ${JSON.stringify(got[i])}`);
    }
}

async function pickers(fn) {
    const A = { kind: 'file', name: 'a' }, B = { kind: 'file', name: 'b' };
    for (const first of [A, B, Error]) {
        for (const second of [A, B, Error]) {
            for (const swapped of [false, true]) {
                for (const name of fn === 'showSaveFilePicker' ? names : [undefined]) {
                    runs++;
                    const asked = [];
                    for (const what of ['showOpenFilePicker', 'showSaveFilePicker', 'showDirectoryPicker']) {
                        window[what] = (opts) => { const d = deferred(); asked.push({ what, opts: opts ?? {}, d }); steps++; return d.p; };
                    }
                    const m = await load();
                    const got = [[], []];
                    for (const k of [0, 1]) {
                        m[fn]((v) => got[k].push(v), name);
                        must(asked.length === k + 1 && asked[k].what === fn, 'the wrong picker');
                        must(!asked[k].opts.multiple, 'several files can be chosen');
                        must((asked[k].opts.suggestedName ?? null) === (name ?? null), `suggested ${asked[k].opts.suggestedName}, not ${name}`);
                    }
                    await answers(asked, [first, second], swapped, got, (v) => (fn === 'showOpenFilePicker' ? [v] : v));
                }
            }
        }
    }
}

async function available() {
    const all = ['showOpenFilePicker', 'showSaveFilePicker', 'showDirectoryPicker'];
    for (let mask = 0; mask < 8; mask++) {
        runs++;
        steps++;
        all.forEach((n, i) => { if (mask >> i & 1) window[n] = () => {}; else delete window[n]; });
        const m = await load();
        must(m.isFilePickerAvailable() === (mask === 7), `available with ${all.filter((_, i) => mask >> i & 1)}`);
    }
}

let error = null;
try {
    if (module === 'ops/tauri.js') await command(fn);
    else if (module === 'picker/tauri.js') await dialogs(fn);
    else if (fn === 'isFilePickerAvailable') await available();
    else await pickers(fn);
} catch (e) {
    error = `${e}`;
}
console.log(JSON.stringify({ runs, steps, error }));
process.exit(0);
