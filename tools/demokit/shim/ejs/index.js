// Minimal stand-in for the npm package "ejs": <% %>, <%= %>, <%- %>, <%# %>, <%_ _%>, -%>, <%% and include().
"use strict";
const fs = require("fs"), path = require("path");
const ESC = { "&": "&amp;", "<": "&lt;", ">": "&gt;", '"': "&#34;", "'": "&#39;" };
function esc(s) { return s === undefined || s === null ? "" : String(s).replace(/[&<>'"]/g, (c) => ESC[c]); }
function compile(src) {
    let body = "let __o='';\nconst __a=(s)=>{ if (s!==undefined && s!==null) __o+=s; };\nwith (__l) {\n", i = 0;
    const text = (s) => { if (s.length) body += "__a(" + JSON.stringify(s) + ");\n"; };
    let trimNl = false, trimWs = false;
    while (i < src.length) {
        let j = src.indexOf("<%", i);
        if (j < 0) j = src.length;
        let t = src.slice(i, j);
        if (trimWs) t = t.replace(/^[ \t]*\r?\n?/, "");
        else if (trimNl) t = t.replace(/^\r?\n/, "");
        trimNl = trimWs = false;
        if (j >= src.length) { text(t); break; }
        if (src[j + 2] === "%") { text(t + "<%"); i = j + 3; continue; }
        if (src[j + 2] === "_") t = t.replace(/[ \t]+$/, "");
        text(t);
        const k = src.indexOf("%>", j + 2);
        if (k < 0) throw new Error("ejs shim: unclosed tag");
        let code = src.slice(j + 2, k);
        if (code.endsWith("-")) { trimNl = true; code = code.slice(0, -1); }
        else if (code.endsWith("_")) { trimWs = true; code = code.slice(0, -1); }
        const strip = (c) => c.replace(/;\s*$/, "");
        if (code[0] === "=") body += "__a(__e(" + strip(code.slice(1)) + "));\n";
        else if (code[0] === "-") body += "__a(" + strip(code.slice(1)) + ");\n";
        else if (code[0] === "#") { /* comment */ }
        else body += (code[0] === "_" ? code.slice(1) : code) + "\n";
        i = k + 2;
    }
    return new Function("__l", "__e", "include", body + "}\nreturn __o;");
}
function renderSync(file, data) {
    const fn = compile(fs.readFileSync(file, "utf8").replace(/^\uFEFF/, ""));
    const include = (p, d) => {
        let f = path.resolve(path.dirname(file), p);
        if (!path.extname(f)) f += ".ejs";
        return renderSync(f, Object.assign(Object.create(data), d || {}));
    };
    return fn(data, esc, include);
}
module.exports = {
    renderFile(file, data, opts, cb) {
        if (typeof opts === "function") cb = opts;
        let r; try { r = renderSync(file, data); } catch (e) { return cb(e); }
        cb(null, r);
    },
    render(src, data) { return compile(src)(data, esc, () => { throw new Error("include"); }); },
};
