# The text of the properties; manifest.py writes properties.jsonl from it.
D = 'src/decoders/'
I = 'src/imageops/'
T = []
def prop(id, title, statement, over, text, why, files, mechanism, observe):
    T.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mechanism], 'observe_at': observe}})

prop('C01', 'Uncompressed raw data decodes to exactly the stored samples',
    'For every uncompressed layout the library reads (8, 10, 12, 14 and 16 bit, packed or padded, in words, in fields, with control bytes, or through a curve with dithering), decoding a well-formed file succeeds and every sample of the image equals the bits of the file that hold that sample. The image has the size and number of samples per pixel the file states, and no sample depends on bytes that belong to another one.',
    ['inputs', 'configurations'], 'for every content of the pixel data, every supported layout and byte order, every image size',
    "The repository has no decoding tests at all (its 14 tests cover image rotation, the mosaic pattern's doc examples and doc compilation); sample files would fix one image per camera, while the property is about every bit pattern at every position and the partial groups at the end of rows.",
    ['src/decoders/packed.rs', 'src/decoders/basics.rs', 'src/decoders/mef.rs', 'src/decoders/erf.rs', 'src/decoders/kdc.rs', 'src/decoders/dcs.rs', 'src/decoders/orf.rs', 'src/decoders/nef.rs', 'src/decoders/nrw.rs', 'src/decoders/pef.rs', 'src/decoders/raf.rs', 'src/decoders/rw2.rs', 'src/decoders/srw.rs', 'src/decoders/arw.rs', 'src/decoders/mrw.rs', 'src/decoders/ari.rs', 'src/decoders/mos.rs', 'src/decoders/dng.rs', 'src/decoders/nkd.rs'],
    [('decode_* functions', 'src/decoders/packed.rs'), ('choice of the layout from size, compression and camera hints', 'image() of each decoder')],
    ['RawImage.data, width, height, cpp'])

prop('C02', 'Lossless JPEG data decodes to exactly the encoded samples',
    'For every image encoded as lossless JPEG in a DNG (strip or tiles), Canon CR2 (with or without stripes, interleaved lines or colour subsampling), Hasselblad 3FR or Leaf MOS file, decoding succeeds and gives exactly the samples that were encoded, at their own row and column, with padding left out. That holds for every Huffman table, every size of difference, every number of components and every place where the data stream stuffs bytes or restarts.',
    ['inputs', 'configurations'], 'for every content of the image, choice of tables, components, precision and arrangement in tiles or stripes',
    'The repository has no decoding tests; a sample image uses one table and few sizes of differences, while errors hide in rare codes, long differences, partial tiles and stuffed bytes.',
    [D + 'ljpeg/mod.rs', D + 'ljpeg/huffman.rs', D + 'ljpeg/decompressors.rs', D + 'dng.rs', D + 'cr2.rs', D + 'tfr.rs', D + 'mos.rs'],
    [('LjpegDecompressor', D + 'ljpeg/mod.rs'), ('HuffTable', D + 'ljpeg/huffman.rs'), ('decode_ljpeg_*, decode_hasselblad, decode_leaf_strip', D + 'ljpeg/decompressors.rs'), ('arrangement of tiles, stripes and lines', D + 'dng.rs, cr2.rs, mos.rs')],
    ['RawImage.data, width, height, cpp'])
prop('C03', "Variable length codings decode to exactly the encoded samples",
    'For every image stored with the entropy coding of its camera (Pentax PEF, Nikon NEF with its tables, splits and curves, Sony ARW 1, Samsung SRW 1 to 3, Phase One IIQ, Kodak DCR, Olympus ORF, Canon CRW with and without low bits), decoding gives the samples that were encoded, at their own row and column. That holds for every size of difference and every mode a block can be stored in, with predictions restarted, tables switched and curves applied where the format says so.',
    ['inputs', 'configurations'], 'for every content of the image and every sequence of codes and modes that the format has',
    'The repository has no decoding tests; a sample image uses the common codes and modes, while errors hide in rare codes, in modes few cameras use and at the edges of blocks and lines.',
    [D + x for x in ['pef.rs', 'nef.rs', 'arw.rs', 'srw.rs', 'iiq.rs', 'dcr.rs', 'orf.rs', 'crw.rs', 'basics.rs', 'ljpeg/huffman.rs']],
    [('decode_compressed, decode_srw1, decode_srw2, decode_srw3, decode_arw1, decode_kodak65000, do_decode', D + '*.rs'), ('BitPump*, LookupTable, clampbits', D + 'basics.rs'), ('HuffTable', D + 'ljpeg/huffman.rs')],
    ['RawImage.data, width, height'])
prop('C04', 'Codings with a fixed size decode to exactly the encoded samples',
    'For every image stored in blocks of a fixed size (Sony ARW 2 with a maximum, a minimum and their positions in each block of 16, Panasonic RW2 in groups of 14 pixels of 16 bytes, with blocks split in halves or not) or encrypted (Sony SRF), decoding gives the samples that were encoded, at their own row and column. That holds for every content of a block, wherever it lies.',
    ['inputs', 'configurations'], 'for every content of the blocks and every place of a block in the image',
    'The repository has no decoding tests; blocks at the edges of rows and of the units that are decoded in parallel, and fields that cross bytes and halves, are met by few images.',
    [D + x for x in ['arw.rs', 'rw2.rs', 'basics.rs']],
    [('decode_arw2, decode_srf, sony_decrypt', D + 'arw.rs'), ('decode_panasonic, BitPumpPanasonic', D + 'rw2.rs'), ('LookupTable, BitPumpLSB', D + 'basics.rs')],
    ['RawImage.data, width, height'])
prop('C06', 'Metadata of the image are what the file and its camera state',
    'For every supported format, the white balance, black and white levels, crops, colour pattern, colour matrix, orientation and camera names of a decoded image are those the file stores, read from where and how its maker stores them (encrypted, scaled, split or in another order), and otherwise those known for the camera. A file that has no white balance gives one of not-a-number values, never a wrong number.',
    ['inputs', 'configurations'], 'for every stored value, in both byte orders and in every variant of the format',
    'The repository has no decoding tests; sample images fix one set of values per camera, so that exchanged channels, wrong positions and lost bits may go unnoticed.',
    [D + x for x in ['arw.rs', 'ari.rs', 'cr2.rs', 'crw.rs', 'dcr.rs', 'dcs.rs', 'dng.rs', 'erf.rs', 'iiq.rs', 'kdc.rs', 'mef.rs', 'mos.rs', 'mrw.rs', 'nef.rs', 'nrw.rs', 'nkd.rs', 'orf.rs', 'pef.rs', 'raf.rs', 'rw2.rs', 'srw.rs', 'tfr.rs', 'tiff.rs', 'ciff.rs', 'image.rs', 'mod.rs']],
    [('get_wb and image() of each decoder', D + '*.rs'), ('get_blacklevels, get_crops, get_color_matrix', D + 'dng.rs'), ('Orientation::from_tiff, check_supported', D + 'mod.rs'), ('sony_decrypt', D + 'arw.rs')],
    ['RawImage.wb_coeffs, blacklevels, whitelevels, crops, cfa, xyz_to_cam, orientation, make, model, clean_make, clean_model'])
prop('C08', 'The colour filter pattern is periodic and follows every shift and crop',
    'Of a pattern given as 4, 16, 36 or 144 letters, the colour at any row and column is the letter at that row and column modulo the size of the pattern (2 by 2, 2 by 8, 6 by 6 or 12 by 12). Shifting a pattern, or cropping an image, by any number of rows and columns gives the pattern whose colour at a position is the original one that many rows and columns further, shifts add up, copies are equal, and an empty pattern is never valid.',
    ['inputs'], 'for every pattern, position, shift and crop',
    'The doc examples look at a handful of positions of two patterns; the index arithmetic has to be right for all of them.',
    [D + 'cfa.rs', D + 'image.rs'], [('CFA::new, color_at, shift', D + 'cfa.rs'), ('cropped_cfa, is_monochrome', D + 'image.rs')], ['CFA::color_at, CFA::shift, RawImage::cropped_cfa, RawImage::is_monochrome'])
prop('C09', 'Crop, demosaic and scaling keep every sample in place',
    'Converting an image for output uses exactly the samples inside the crops; at full size every pixel keeps its own sample and each colour it lacks is the average of the samples of that colour among its up to eight neighbours (zero if there is none). With limits, the result has the largest size that fits them with the ratio of the image kept, is never enlarged nor smaller than one pixel, and no limits (or one of zero) keep the size; every pixel of a smaller result is, per colour, a mean of the samples of that colour in the area the pixel covers, in which samples wholly inside have full weight, and for whole ratios the plain mean.',
    ['inputs', 'configurations'], 'for every content of the image, pattern, crop, image size and size limit',
    'No test covers these stages; whether neighbourhoods, blocks and weights are right shows only for particular positions, patterns and ratios.',
    [I + 'gofloat.rs', I + 'demosaic.rs', I + 'mod.rs'], [('convert', I + 'gofloat.rs'), ('full, scaled, scale_down, demosaic_and_scale', I + 'demosaic.rs')], ['OpBuffer of gofloat::convert and demosaic::*, the image of to_rgb'])
prop('C10', 'Levels and white balance scale every pixel as the image states',
    'Each colour of each pixel becomes (value - black level) / (white level - black level) times the white balance multiplier of that colour relative to green, and at most one; monochrome images get no white balance, and images without a usable one get the multipliers that make the white of sRGB neutral through the camera matrix. When the camera has masked rows or columns, the black level of each colour is the mean of the masked samples of that colour, and the image itself is kept.',
    ['inputs', 'configurations'], 'for every pixel value, and every choice of levels, multipliers (missing, zero, infinite, not numbers), patterns and masked areas',
    'No test covers these stages; which multiplier applies depends on combinations of metadata that sample files do not have.',
    [I + 'level.rs', D + 'image.rs'], [('level_and_balance', I + 'level.rs'), ('RawImage::new (masked areas), neutralwb', D + 'image.rs')], ['OpBuffer after level_and_balance, RawImage.blacklevels'])
prop('C11', 'The output image is every step in order, turned as the image states',
    'An image is converted by cropping and demosaicing to the size limits, levels and white balance, the conversion to Lab, the base curve, the conversion to Rec.709, and for non-linear output the gamma curve of BT.709, which maps everything to between 0 and 1; then every pixel is moved to where the orientation puts it, with the size limits meant for the turned image. The 8 bit output has the same pixels, each value being 255 times the value, rounded down.',
    ['inputs', 'configurations'], 'for every content of the image, each of the nine orientations, and every limit of the size',
    'The existing tests rotate one 3 by 3 image; whether limits, turns, the curve and the 8 bit result fit together for every image is not tested.',
    [I + 'mod.rs', I + 'transform.rs', I + 'gamma.rs', D + 'image.rs'], [('simple_decode, decoder', I + 'mod.rs'), ('rotate', I + 'transform.rs'), ('gamma', I + 'gamma.rs'), ('to_rgb, to_linear_rgb, to_srgb', D + 'image.rs')], ['RGBImage and SRGBImage of to_rgb, to_linear_rgb, to_srgb'])
prop('C14', 'Colours follow the camera matrix, and the base curve acts on lightness only',
    'Apart from the base curve, linear output is the camera value times the least squares inverse of the camera matrix (scaled so that equal camera values are the white of sRGB), divided by the D65 white and times the matrix from XYZ to Rec.709, whatever the colours and also with a fourth one. The base curve keeps both colour axes and maps the lightness by the monotone cubic curve through (0,0), (0.3,0.25), (0.5,0.5), (0.7,0.75) and (1,1), never above one.',
    ['inputs'], 'for every camera value and lightness',
    'No test covers the colour conversion; tables, cut-offs and polynomial pieces each matter for some values only.',
    [I + 'colorspaces.rs', I + 'curves.rs', D + 'image.rs'], [('camera_to_lab, lab_to_rec709, labf, labinvf', I + 'colorspaces.rs'), ('base, SplineFunc', I + 'curves.rs'), ('cam_to_xyz, pseudoinverse', D + 'image.rs')], ['OpBuffer after camera_to_lab, base and lab_to_rec709, RawImage::cam_to_xyz'])
prop('C05', 'Where and how a file stores something makes no difference',
    'A well-formed file decodes to the same image whatever the byte order, the order and the place of its directories and entries, the integer type that holds a value, whether data is stored in line or elsewhere, the form of the maker note, and whatever unknown entries, unreadable subdirectories or unrelated blocks it contains; this holds for TIFF, CIFF, MRW and RAF containers. Each file is decoded as the format its structure, maker and software state (a DNG under every maker; by its size alone only if it has no structure) and described by exactly the camera and mode it names. A file of no known maker, camera or size is rejected with an error.',
    ['inputs', 'configurations'], 'for every contents of the values and of what does not matter, every arrangement within the bounds',
    'No test reads a file at all; sample files have one arrangement per camera model, while firmware, converters and editors write others.',
    [D + x for x in ['tiff.rs', 'ciff.rs', 'mod.rs', 'mrw.rs', 'raf.rs', 'dng.rs']],
    [('TiffIFD::new, new_root, new_makernote, new_fuji, TiffEntry', D + 'tiff.rs'), ('CiffIFD, CiffEntry', D + 'ciff.rs'), ('get_decoder, check_supported, check_supported_with_mode, decode (naked files)', D + 'mod.rs'), ('blocks of the MRW header', D + 'mrw.rs')],
    ['the whole RawImage, or the error'])
prop('C13', 'Results depend on the file alone',
    'Decoding the same bytes with the same camera descriptions gives the same image, and rendering the same image gives the same pixels, in whatever order the parallel work is done, whatever was decoded or rendered before in the process (other files, damaged files, other images), and whether the file comes from memory, in pieces, with interrupted reads, or by its path. A source that fails in the middle gives an error, never an image.',
    ['schedules', 'histories', 'inputs', 'fault_sequences'], 'for every order of the work, every history of earlier calls and every way the source delivers its bytes, within the bounds',
    'No test decodes a file, let alone twice; an order that matters shows only with some schedules, and left-over state only after certain other files.',
    [D + 'basics.rs', D + 'mod.rs', I + 'mod.rs', 'src/lib.rs', D + 'dng.rs', D + 'ljpeg/huffman.rs', I + 'curves.rs', I + 'gamma.rs'],
    [('decode_threaded, decode_threaded_multiline, LookupTable', D + 'basics.rs'), ('Buffer::new, RawLoader', D + 'mod.rs'), ('mutate_lines, process_into_new, do_timing', I + 'mod.rs'), ('decode, decode_file, decode_safe', 'src/lib.rs')],
    ['the whole RawImage, OpBuffer, or the error'])
