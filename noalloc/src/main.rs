//! The configuration without alloc. See ../../DESIGN.md.
#[global_allocator]
static A: covrt::CheckAlloc = covrt::CheckAlloc;
mod gen;
#[path = "../../harness/src/bufx.rs"]
mod bufx;
#[path = "../../harness/src/http.rs"]
mod http;
#[path = "../../harness/src/arb.rs"]
mod arb;
#[path = "../../harness/src/iter.rs"]
mod iter;
mod naqueue;
mod naserde;
mod navalue;
#[path = "../../harness/src/chunk.rs"]
mod chunk;
#[path = "../../harness/src/nomx.rs"]
mod nomx;
#[path = "../../harness/src/search.rs"]
mod search;

fn main() {
    covrt::engine::main(&[naqueue::QUEUE, navalue::VALUE, chunk::CHUNK, iter::ITER, search::SEARCH, nomx::PARSE, nomx::OPS, arb::ARB, bufx::BUF, http::HTTP, naserde::SERDE]);
}
