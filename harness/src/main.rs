//! Generators and oracles for bytedata. See ../../DESIGN.md.
#![feature(core_io_borrowed_buf)]
#[global_allocator]
static A: covrt::CheckAlloc = covrt::CheckAlloc;
mod gen;
#[cfg(feature = "m_builder")]
mod builder;
#[cfg(any(feature = "m_queue", feature = "m_squeue"))]
#[cfg_attr(not(feature = "m_queue"), allow(dead_code))]
mod queue;
#[cfg(feature = "m_squeue")]
mod squeue;
#[cfg(feature = "m_string")]
mod string;
#[cfg(feature = "m_value")]
mod value;
#[cfg(feature = "m_search")]
mod search;
#[cfg(feature = "m_cmp")]
mod cmp;
#[cfg(feature = "m_consts")]
mod consts;
#[cfg(feature = "m_io")]
mod io;
#[cfg(feature = "m_bytes")]
mod bytes_x;
#[cfg(feature = "m_bytes")]
mod bufx;
#[cfg(feature = "m_http")]
mod http;
#[cfg(feature = "m_nom")]
mod nomx;
#[cfg(feature = "m_serde")]
mod serdex;
#[cfg(feature = "m_intern")]
mod intern;
#[cfg(feature = "m_fmt")]
mod fmtx;
#[cfg(feature = "m_iter")]
mod iter;
#[cfg(feature = "m_alias")]
mod alias;
#[cfg(feature = "m_arb")]
mod arb;
#[cfg(feature = "m_value")]
mod chunk;
#[cfg(feature = "m_panics")]
mod panics;
#[cfg(feature = "m_refs")]
mod refs;
#[cfg(feature = "m_huge")]
mod huge;

fn main() {
    let mods: &[covrt::engine::Module] = &[
        #[cfg(feature = "m_value")]
        value::VALUE,
        #[cfg(feature = "m_builder")]
        builder::BUILDER,
        #[cfg(feature = "m_builder")]
        builder::STRBUILDER,
        #[cfg(feature = "m_queue")]
        queue::QUEUE,
        #[cfg(feature = "m_squeue")]
        squeue::SQUEUE,
        #[cfg(feature = "m_string")]
        string::STRING,
        #[cfg(feature = "m_string")]
        string::UTF8IN,
        #[cfg(feature = "m_search")]
        search::SEARCH,
        #[cfg(feature = "m_cmp")]
        cmp::CMP,
        #[cfg(feature = "m_consts")]
        consts::CONSTS,
        #[cfg(feature = "m_consts")]
        consts::UTF8,
        #[cfg(feature = "m_io")]
        io::READ,
        #[cfg(feature = "m_io")]
        io::WRITE,
        #[cfg(feature = "m_bytes")]
        bytes_x::CONV,
        #[cfg(feature = "m_bytes")]
        bufx::BUF,
        #[cfg(feature = "m_bytes")]
        bytes_x::BUFMUT,
        #[cfg(feature = "m_http")]
        http::HTTP,
        #[cfg(feature = "m_nom")]
        nomx::PARSE,
        #[cfg(feature = "m_nom")]
        nomx::OPS,
        #[cfg(feature = "m_serde")]
        serdex::SERDE,
        #[cfg(feature = "m_serde")]
        serdex::TOKENS,
        #[cfg(feature = "m_serde")]
        serdex::FOREIGN,
        #[cfg(feature = "m_intern")]
        intern::INTERN,
        #[cfg(feature = "m_fmt")]
        fmtx::RENDER,
        #[cfg(feature = "m_fmt")]
        fmtx::WRITE,
        #[cfg(feature = "m_iter")]
        iter::ITER,
        #[cfg(feature = "m_alias")]
        alias::ALIAS,
        #[cfg(feature = "m_arb")]
        arb::ARB,
        #[cfg(feature = "m_value")]
        chunk::CHUNK,
        #[cfg(feature = "m_panics")]
        panics::PANICS,
        #[cfg(feature = "m_refs")]
        refs::REFS,
        #[cfg(feature = "m_huge")]
        huge::HUGEVAL,
        #[cfg(feature = "m_huge")]
        huge::HUGEQUEUE,
        #[cfg(feature = "m_huge")]
        huge::HUGEIO,
        #[cfg(feature = "m_huge")]
        huge::HUGEBUF,
        #[cfg(feature = "m_huge")]
        huge::HUGELIMIT,
    ];
    covrt::engine::main(mods)
}
