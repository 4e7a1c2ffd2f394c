macro_rules! props { ($($f:literal $m:ident;)*) => {
    $(#[cfg(feature = $f)] pub mod $m;)*
    #[cfg(feature = "native")]
    pub fn lookup(n: &str) -> Option<extern "C-unwind" fn()> {
        let mut all: Vec<&[(&str, extern "C-unwind" fn())]> = Vec::new();
        $(#[cfg(feature = $f)] { all.push($m::TABLE); #[cfg(feature = "thorough")] all.push($m::deep::TABLE); })*
        all.iter().flat_map(|t| t.iter()).find(|e| e.0 == n).map(|e| e.1)
    }
} }
props! {
    "chunk-sequence" chunk_sequence; // C01
    "chunk-transfer" chunk_transfer; // C02
    "ring-sequence" ring_sequence; // R01
    "ring-transfer" ring_transfer; // R02
    "chunk-contract" chunk_contract; // C03
    "ring-contract" ring_contract; // R03
    "chunk-ownership" chunk_ownership; // C04
    "ring-ownership" ring_ownership; // R04
    "chunk-unwind" chunk_unwind; // C05
    "ring-unwind" ring_unwind; // R05
    "chunk-liar" chunk_liar; // C06
    "ring-liar" ring_liar; // R06
    "chunk-history" chunk_history; // C07
    "ring-history" ring_history; // R07
    "ring-views" ring_views; // R08
    "ring-view-writes" ring_view_writes; // R10
    "ring-search" ring_search; // R09
    "sparse-map" sparse_map; // S01
    "sparse-iteration" sparse_iteration; // S02
    "sparse-ownership" sparse_ownership; // S03
    "inline-sequence" inline_sequence; // I01
    "inline-layout" inline_layout; // I02
    "inline-ownership" inline_ownership; // I03
    "chunk-iteration" chunk_iteration; // C08
    "ring-iteration" ring_iteration; // R11
    "chunk-comparison" chunk_comparison; // C09
    "inline-comparison" inline_comparison; // I04
    "ring-comparison" ring_comparison; // R12
    "sparse-comparison" sparse_comparison; // S04
    "chunk-io" chunk_io; // C12
    "ring-io" ring_io; // R13
    "chunk-slices" chunk_slices; // C10
    "chunk-ordered" chunk_ordered; // C11
    "conversion" conversion; // X01
    "pools" pools; // P01
    "arbitrary-bytes" arbitrary_bytes; // A01
    "nothing" nothing; // Z01
    "sizeless" sizeless; // Z02
    "sparse-hashed" sparse_hashed; // S05
    "debugging" debugging; // D01
    "moves" moves; // T03
    "heap" heap; // H01
}
