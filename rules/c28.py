from vg.oblig import Obl, refusals
P = "aspsim.processor."
R = [refusals()]
OBLIGATIONS = [
    Obl("blocks of a table", "blocks.split", {"f": ("aspsim.utilities.calc_block_sizes", "spec.blocks.sizes")}, see=R),
    Obl("blocks of a buffer", "blocks.split_buffer", {"f": (P + "calc_block_sizes_with_buffer", "spec.blocks.buffer_sizes")}, see=R),
    Obl("first of the blocks before an index", "blocks.first", {"f": (P + "find_first_index_for_block", "spec.blocks.first_index")}, see=R),
    Obl("blocks before an index", "blocks.visited", {"f": (P + "block_process_until_index", "spec.blocks.blocks")}, see=R),
]
