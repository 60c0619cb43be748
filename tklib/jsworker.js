// Persistent evaluator of compiled Tonnikala JavaScript templates.
// argv[2]: the path of the Tonnikala JavaScript runtime.
// One JSON request per line on stdin:
//   {templates: {name: code}, main: name, ctxs: ["JS expression"..]}: the text for each context
//   {.. methods: true}: the results of all methods of the bound template too
//   {names: [..], exprs: [..], ctxSrc: ".."}: the values of expressions, as strings
//   {parse: [code..]}: the codes are valid in the older editions too
// one JSON response per line on stdout: {ok: text} or {error: text}
'use strict';
const vm = require('vm'), fs = require('fs'), readline = require('readline');
const runtimeSrc = fs.readFileSync(process.argv[2], 'utf8');

function run(req) {
    const cache = Object.create(null);
    const sandbox = vm.createContext({console: console});
    vm.runInContext('var global = this;', sandbox);

    function load(name) {
        if (name in cache) { return cache[name]; }
        const src = name === 'tonnikala/runtime' ? runtimeSrc : req.templates[name];
        if (src === undefined) { throw new Error('no module ' + name); }
        let result;
        sandbox.require = load;
        sandbox.define = function (deps, factory) {
            result = factory.apply(null, Array.from(deps).map(load));
        };
        vm.runInContext(src, sandbox, {timeout: 20000, filename: name});
        cache[name] = result;
        return result;
    }

    const binder = load(req.main);
    const out = [];
    for (const ctxSrc of req.ctxs) {
        const ctx = vm.runInContext('(' + ctxSrc + ')', sandbox);
        const bound = binder(ctx);
        for (let i = 0; i < (req.times || 1); i++) {
            out.push(String(bound.render()));
        }
        if (req.methods) {
            const all = [String(bound.html()), String(bound)];
            // stands in for jQuery
            sandbox.$ = function (text) {
                const rv = {};
                ['appendTo', 'prependTo', 'insertAfter', 'insertBefore'].forEach(function (name) {
                    rv[name] = function () { return [String(text), name].concat(Array.from(arguments)).join('|'); };
                });
                return rv;
            };
            ['appendTo', 'prependTo', 'insertAfter', 'insertBefore'].forEach(function (name) {
                all.push(String(bound[name]('x', 1)));
            });
            out.push(all);
        }
    }
    return out;
}

function evaluate(req) {
    const sandbox = vm.createContext({});
    const code = '(function (' + req.names.join(', ') + ') { "use strict"; return [' +
        req.exprs.map(function (e) { return 'String((' + e + '\n))'; }).join(', ') + ']; })';
    const ctx = vm.runInContext('(' + req.ctxSrc + ')', sandbox);
    const func = vm.runInContext(code, sandbox, {timeout: 20000});
    return Array.from(func.apply(null, req.names.map(function (n) { return ctx[n]; })));
}

function parse(req) {
    const acorn = require('/opt/veriftools/node/node_modules/acorn');
    return req.parse.map(function (code) {
        acorn.parse(code, {ecmaVersion: 5, sourceType: 'script'});
        return '';
    });
}

const rl = readline.createInterface({input: process.stdin, terminal: false});
rl.on('line', function (line) {
    let rv;
    try {
        const req = JSON.parse(line);
        rv = {ok: req.exprs ? evaluate(req) : req.parse ? parse(req) : run(req)};
    } catch (e) {
        rv = {error: String(e && e.stack ? e : e)};
    }
    process.stdout.write(JSON.stringify(rv) + '\n');
});
