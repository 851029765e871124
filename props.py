# What each property's check runs, and what it covers.
COMMON = [
    'LLVM IR of rustc 1.99.1 at opt-level 1 with overflow checks and debug assertions stands for the program; the same profile is used for native replay',
    'symir (the symbolic executor in /verif/symir) and z3 4.8.12 are trusted; witnesses of explored paths are replayed natively to validate the encoding',
    'rayon is replaced by a sequential stand-in that can run the pieces of work in any of several orders; allocation never fails; HashMap seeds are fixed',
]
REAL = 'float queries are decided in linear real arithmetic with rounding errors bounded as IEEE 754 guarantees (products and tables bounded by their linearisation), bit-precisely where that does not suffice'
PROPS = {
    'C01': dict(
        harnesses=[dict(name='h_packed', time=300)],
        bounds='every pixel byte symbolic; for each of the uncompressed layouts of 16 decoders two to five image sizes from 2x2 to 3504x2 pixels, both byte orders where the format has them; curves of 8 bit formats: all samples against three curves, and all monotone curves in windows of 5 entries against all samples',
        outside='other image sizes; several strips; odd widths of packed layouts; files whose pixel data is truncated (C12)',
        assumptions=COMMON),
    'C02': dict(
        harnesses=[dict(name='h_dng_strip', time=60), dict(name='h_dng_tiles', time=60), dict(name='h_cr2', time=100), dict(name='h_sraw', time=200), dict(name='h_tfr', time=40), dict(name='h_mos', time=60)],
        bounds='every bit of every stored difference symbolic (all 17 categories; the sequence of categories is one of eight, so that every category meets every table); five Huffman tables, 2 to 4 components, precisions 14 to 16; strips and tiles of DNG up to 5x4 samples with and without padding, CR2 up to 12x6 with and without stripes, sRAW with both subsamplings up to 8x4, 3FR up to 10x2, MOS up to 4x17',
        outside='larger images; other sequences of categories and other tables; codes longer than the precision of the frame; predictors other than 1 (rejected by the decoder except for the pairs of 3FR); the linearization of old Canon files; tiles of odd width; corrupt data (C12)',
        assumptions=COMMON + ['differences are compared as linear forms over the bits of the file where both sides have one, by the solver otherwise']),
    'C03': dict(
        harnesses=[dict(name=n, time=60) for n in ['h_pef', 'h_nef', 'h_arw1', 'h_srw1', 'h_srw2', 'h_srw3', 'h_iiq', 'h_dcr', 'h_orf', 'h_crw']],
        bounds='every bit of the stored differences and values symbolic, for PEF, NEF, ARW 1, SRW 1 to 3, IIQ, DCR, ORF and CRW; the sequence of categories is one of eight to twelve per format, so that every category, table and mode of a block is met; images of 8x2 to 260x1 (CRW also 2672x4) pixels, curves of NEF and DCR: two to four',
        outside='larger images; other sequences of categories; differences that leave the range of a sample, except that NEF and PEF values are limited; the linearized segments of DCR; corrupt data (C12)',
        assumptions=COMMON + ['differences are compared as linear forms over the bits of the file where both sides have one, by the solver otherwise']),
    'C04': dict(
        harnesses=[dict(name=n, time=60) for n in ['h_arw2', 'h_rw2', 'h_srf']],
        bounds='every bit of the blocks of ARW 2 (maxima, minima, their positions and differences), of the groups of compressed RW2s (with and without split blocks) at the edges of rows, blocks and the halves of blocks, and of the pixels of SRF files under two keys, symbolic; images of 32x2 to 2940x8 pixels',
        outside='larger images; the floating point conversion of small NEFs (12 bit luma and chroma); RW2 groups in which it stays open more than once whether the least value is reached; other keys of SRF; ARW 2 blocks whose positions of maximum and minimum are equal',
        assumptions=COMMON),
    'C06': dict(
        harnesses=[dict(name='h_meta', time=200)],
        bounds='every 16 or 32 bit value of the metadata symbolic, in small images of 22 formats, both byte orders where the format has them, and every way the decoders know to store a white balance; Nikon serial numbers: five, with every value of one byte of the key; Sony keys: three; colour matrices: four symbolic entries of nine or twelve; every 16 bit orientation',
        outside='text (the neutrals of MOS files: four); A100 and SRF files; the positions of the data are those the builders choose; several images or maker notes in a file other than those built',
        assumptions=COMMON),
    'C08': dict(
        harnesses=[dict(name='h_cfa', time=200)],
        bounds='all 1296 2x2 patterns; one 16, 36 and 144 letter pattern each at every row and column up to 255, for all shifts and crops up to 12x12 and some up to 2777',
        outside='larger coordinates; other 16, 36 and 144 letter patterns',
        assumptions=COMMON),
    'C09': dict(
        harnesses=[dict(name='h_crop', time=60), dict(name='h_full', time=100), dict(name='h_size', time=100), dict(name='h_limits', time=150), dict(name='h_scaled', time=300)],
        bounds='every sample symbolic (16 bit); six patterns, with and without crops, images up to 13x9 at full size and up to 16x14 when scaled; sizes of the result for 10 image sizes and 90 pairs of limits, and every 16 bit pair of limits that exceeds a 7x5 image; means within 0.05 of a level',
        outside='larger images; the weight of samples that a pixel covers in part; two samples per pixel; rounding differences below 0.05 of a level',
        assumptions=COMMON + ['float queries are decided in linear real arithmetic with rounding errors bounded as IEEE 754 guarantees, bit-precisely where that does not suffice']),
    'C10': dict(
        harnesses=[dict(name='h_levels', time=100), dict(name='h_masked', time=150)],
        bounds='every pixel value a symbolic 24 bit fixed point number; 12 white balances (with missing, zero, infinite and tiny multipliers) with 3 matrices, 3 sets of levels, 4 kinds of image, up to 3x2 pixels; masked areas: every sample symbolic, 4 patterns, images up to 6x5 with masked rows, columns and both',
        outside='other levels and multipliers; larger images; differences below 0.0001 of the range, and below 0.01 of a level for masked areas',
        assumptions=COMMON + [REAL]),
    'C11': dict(
        harnesses=[dict(name='h_orient', time=60), dict(name='h_output', time=150), dict(name='h_gamma', time=100)],
        bounds='orientation: every pixel symbolic, all nine orientations, six sizes up to 7x6, 1, 3 and 4 colours; composition: every sample symbolic in windows of 64 levels at four tones, images of 5x4 and 6x5 of four kinds with crops, all orientations, three pairs of limits; gamma: every value on a grid of 2^20 steps of the range, and values outside',
        outside='larger images; tones outside of the windows in the composition (each stage on its own: C09, C10, C14); rounding differences below 0.0001',
        assumptions=COMMON + [REAL]),
    'C14': dict(
        harnesses=[dict(name='h_colors', time=150), dict(name='h_curve', time=60)],
        bounds='the four camera values symbolic in windows of 256 steps of 2^-16 (2^-19 for the darkest) at eight places of the range, three camera matrices, one with four colours; base curve: every lightness on a grid of 40 * 2^16 steps, every pair of colour values on a 2^-16 grid; linear RGB within 0.003, the curve within 0.0012',
        outside='values outside of the windows, in particular XYZ above the white (a cube root from libm); other camera matrices',
        assumptions=COMMON + [REAL]),
    'C05': dict(
        harnesses=[dict(name='h_box', time=200), dict(name='h_variants', time=100)],
        bounds='pixel data, levels, neutral values, text behind its end, preambles of notes and unknown entries symbolic; DNG directories in chains of up to 42 and rings, nested up to ten deep, in four kinds of subdirectories, with broken and self-containing ones, in five orders, in front of and behind the data, seven types per value; ten forms of maker notes with either byte order; CIFF heaps nested up to nine deep; six orders of MRW blocks; five orders of RAF entries; for 27 kinds of small TIFF files of all formats the entries in reverse order, with unknown entries, and both',
        outside='directories with more than 42 links; positions beyond 2^31; entries that occur twice; other structures of damaged files (C12)',
        assumptions=COMMON),
    'C13': dict(
        harnesses=[dict(name='h_sched', time=150, schedules=True), dict(name='h_render_sched', time=250, schedules=True), dict(name='h_history', time=150), dict(name='h_reading', time=100)],
        bounds='31 small files of all formats with symbolic pixel data and white balance (concrete pixel data for the larger ones); thirteen orders of the pieces of parallel work; before the second decoding all 31 others and half of them truncated, with the same loader, one with the same camera; rendering of six kinds of images with and without limits in five orders and after seven other images, all samples symbolic up to the levels, one sample with two values from there to the result; reading in pieces of 100 and 700 bytes with interruptions and a failure, and through a file',
        outside='interleavings within one piece of parallel work (the pieces share no mutable state that safe Rust would let them change but atomics and locks); more than one decoding at the same time; larger files',
        assumptions=COMMON + ['read(), open() and fstat() are modelled: a file is its bytes, reads are complete']),
}
NOT_APPLICABLE = []
