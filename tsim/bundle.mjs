// Bundles the repository's own TypeScript for the simulator: the worker, the worker client and the UI.
// Only what is outside the repository (React, zustand, Papa Parse, Plotly, the wasm package) is replaced.
import { createRequire } from "node:module";
import { mkdirSync, writeFileSync, renameSync } from "node:fs";
import path from "node:path";
import url from "node:url";

const HERE = path.dirname(url.fileURLToPath(import.meta.url));
const REPO = process.env.SR_REPO || "/repo";
const UI = path.join(REPO, "web", "ui", "src");
const require = createRequire("/opt/veriftools/node/node_modules/");
const esbuild = require("esbuild");
const stub = (f) => path.join(HERE, "stubs", f);

const ALIAS = [
  [/symbolic_regression_wasm(\.js)?$/, "wasm.js"],
  [/^react$/, "react.js"],
  [/^react\/jsx-(dev-)?runtime$/, "react.js"],
  [/^zustand(\/.*)?$/, "zustand.js"],
  [/^papaparse$/, "papaparse.js"],
  [/^react-plotly\.js(\/.*)?$/, "plotly.js"],
  [/generated\/defaultCsv$/, "csv.js"],
];
const plugin = {
  name: "seams",
  setup(b) {
    for (const [filter, file] of ALIAS) b.onResolve({ filter }, () => ({ path: stub(file) }));
    b.onResolve({ filter: /\.css$/ }, (a) => ({ path: a.path, namespace: "css" }));
    b.onLoad({ filter: /.*/, namespace: "css" }, () => ({ contents: "" }));
  },
};

async function bundle(entry, contents) {
  const r = await esbuild.build({
    ...(contents ? { stdin: { contents, resolveDir: UI, loader: "ts" } } : { entryPoints: [path.join(UI, entry)] }),
    bundle: true, write: false, format: "iife", globalName: "__out", target: "es2022", jsx: "automatic", plugins: [plugin], logLevel: "silent",
    define: { "import.meta.url": '"http://sim/app.js"', "import.meta.env": "{}", "process.env.NODE_ENV": '"production"' },
    tsconfigRaw: "{}",
  });
  return r.outputFiles[0].text;
}

const out = path.join(HERE, "build");
mkdirSync(out, { recursive: true });
try {
  const worker = await bundle("worker/srWorker.ts");
  const client = await bundle(null, `export { SrWorkerClient } from "./worker/srWorkerClient";`);
  const ui = await bundle(null, `export { App } from "./app/App"; export { useSessionStore } from "./state/sessionStore"; export { $sim, jsx } from "react";`);
  const text = "// generated\nexport const worker = " + JSON.stringify(worker) + ";\nexport const client = " + JSON.stringify(client) + ";\nexport const ui = " + JSON.stringify(ui) + ";\n";
  const tmp = path.join(out, `bundles.${process.pid}.tmp`);
  writeFileSync(tmp, text);
  renameSync(tmp, path.join(out, "bundles.mjs"));
} catch (e) {
  console.error(String(e.message || e));
  process.exit(2);
}
