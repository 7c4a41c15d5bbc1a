// Stands in for the wasm-bindgen package; the simulator passes the object in.
export default (...a) => __wasm.init(...a);
export const initSync = (...a) => __wasm.initSync(...a);
export const init_thread_pool = (...a) => __wasm.init_thread_pool(...a);
export const builtin_operator_registry = (...a) => __wasm.builtin_operator_registry(...a);
export const default_search_options = (...a) => __wasm.default_search_options(...a);
export const default_core_options = (...a) => __wasm.default_core_options(...a);
export const WasmSearch = __wasm.WasmSearch;
