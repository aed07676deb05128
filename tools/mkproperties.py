import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
NOT='The suite only tests BMG, the top-level helpers and the README examples; '

p('C01','LZ10 compression is lossless and emits standard streams',
 'For every byte string that fits the format, compressing it as LZ10 and decompressing the result returns exactly the original bytes. The compressed data is a well-formed LZ10 stream: it announces the right length, any conforming decoder expands it to the original, it never refers back before the start of the data or beyond the 4096-byte window, and, apart from a few padding bytes at its end, it is never larger than storing every byte literally would be.',
 ['inputs'],'all byte strings, in particular long runs, periods near the 18-byte match limit, repeats near the 4096-byte window limit, and lengths around groups of eight tokens',
 NOT+'one fixed LZ10 string is compressed. Losslessness is a claim about all inputs and depends on match length, distance and flag-group alignment.',
 ['ndspy/lz10.py','ndspy/_lzCommon.py'],[('compress','ndspy/lz10.py'),('compress (match search and token writer)','ndspy/_lzCommon.py')],['return value of ndspy.lz10.compress / decompress'])
p('C02','LZ10 decompression decodes every valid stream, whoever wrote it',
 'Decompressing any well-formed LZ10 stream, including streams by other compressors with self-overlapping, shortest, longest, nearest and farthest back-references, a last flag group that is only partly used, a last match cut off by the announced length, or trailing padding, returns exactly the bytes the format defines. Data that does not begin with the LZ10 marker is refused with an error.',
 ['inputs'],'all token sequences (literals and back-references) that form a valid stream, with any unused flag bits and trailing bytes',
 NOT+'decompression is exercised on a single stream made by this library, which never writes overlapping matches.',
 ['ndspy/lz10.py'],[('decompress','ndspy/lz10.py')],['return value of ndspy.lz10.decompress'])
p('C03','Code compression is lossless and safe for in-place decompression',
 'For every code image, compressing it (as an overlay or as a main ARM9 file) and decompressing the result gives the original image back; when the image cannot be made smaller it is stored raw, and then only zero padding follows it. The output is a valid backwards-LZ file for the console: its trailer describes it correctly, an in-place decompressor that works from the end of the file never overwrites input it has not read yet, and for a main ARM9 file the first 0x4000 bytes are left as they were.',
 ['inputs'],'all code images of any length and content, with and without the ARM9 mode',
 NOT+'code compression has no test at all; both the raw fallback and the split between raw and compressed part depend on the exact sizes reached.',
 ['ndspy/codeCompression.py','ndspy/_lzCommon.py'],[('compress/_compress','ndspy/codeCompression.py'),('compress (ignorable data bookkeeping)','ndspy/_lzCommon.py')],['return values of ndspy.codeCompression.compress / decompress'])
p('C04','Code decompression decodes every valid file and leaves others alone',
 'Decompressing any valid backwards-LZ file, including ones by other compressors with overlapping matches, a raw leading part, any legal trailer padding, or a few words of extra data appended after the trailer, returns the raw part, the decoded part and the appended data, in that order and unaltered. Data that carries no plausible compression trailer is returned unchanged.',
 ['inputs'],'all token sequences, raw prefixes, trailer paddings (8 to 11 bytes) and appended data of up to 0x1C bytes; and arbitrary data without a trailer',
 NOT+'nothing exercises the decompressor.',
 ['ndspy/codeCompression.py'],[('decompress','ndspy/codeCompression.py'),('_detectAppendedData','ndspy/codeCompression.py')],['return value of ndspy.codeCompression.decompress'])
p('C05','Main code files keep their sections across load, edit and save',
 'Loading a main code file, compressed or not, presents exactly the sections that its section table describes, each with its own data, RAM address and BSS size, whether the code settings are located through the ROM header pointer or by their magic. Saving writes section data and a section table that agree with the list of sections, including after sections are edited, grown, shrunk or added, and an unedited canonical file is saved back byte for byte. The word in the code settings that announces the compressed end address is right for the way the file was saved.',
 ['inputs','histories'],'all code files with a settings block and 0 to several explicit sections, with or without compression, and edits of section data',
 NOT+'main code files are never built or loaded by a test.',
 ['ndspy/code.py'],[('MainCodeFile','ndspy/code.py')],['MainCodeFile.sections, .save()'])
p('C06','Overlays and overlay tables round-trip',
 'Loading an overlay table and its files gives one overlay per entry with every field and the decompressed data, and saving the same set produces the identical table, ordered by overlay ID. Saving an overlay, compressed or not, returns file data that loads back to the same overlay data (followed only by zero padding if it could not be made smaller), and updates its recorded sizes and compressed flag to describe that file while leaving other flags alone; asking for only some overlay IDs gives exactly those.',
 ['inputs','histories'],'all sets of overlays: IDs, addresses, sizes, flags, data, compression state and save/reload sequences',
 NOT+'overlays have no tests.',
 ['ndspy/code.py','ndspy/rom.py'],[('Overlay, loadOverlayTable, saveOverlayTable','ndspy/code.py'),('loadArm9Overlays/loadArm7Overlays','ndspy/rom.py')],['ndspy.code.loadOverlayTable / saveOverlayTable / Overlay.save'])
p('C07','Filename tables round-trip through their binary form',
 'Saving any folder tree as a filename table and loading it gives the same tree: folder nesting and order, file names and order, and first file IDs. The table is a valid NDS filename table as an independent reader understands it (folder IDs, parent links, offsets, first file IDs), and loading a canonical table and saving it again reproduces it byte for byte. Valid tables that are arranged differently (folder numbering, order of entries, placement of the entry lists) load to the tree they describe. Names that a table cannot hold (empty file names, more than 127 characters, not Latin-1) are refused with an error instead of being saved wrongly.',
 ['inputs'],'all folder trees: depth, empty folders, name lengths 1 to 127, Latin-1 names, any first IDs; and tables whose folder IDs or sub-table order differ from the one written here',
 NOT+'filename tables are not tested.',
 ['ndspy/fnt.py'],[('load, save','ndspy/fnt.py')],['ndspy.fnt.load / save'])
p('C08','Filename lookups agree with the folder tree',
 'For every file in a folder tree, looking up its path gives its ID and looking up its ID gives its path, at any depth and relative to any folder; subfolder lookup returns the very folder object at that path, and a slash at either end of a path makes no difference. Paths and IDs that do not exist give None (or KeyError when indexing), never the answer for something else.',
 ['inputs'],'all folder trees and all existing and non-existing paths and IDs',
 NOT+'lookups are not tested.',
 ['ndspy/fnt.py'],[('Folder.idOf, filenameOf, subfolder, __getitem__','ndspy/fnt.py')],['ndspy.fnt.Folder methods'])
p('C09','NARC archives keep every file and name',
 'Saving a NARC with any files (including empty ones and none) and any filename table, in either header byte order, and loading it gives the same files in the same ID order, the same names and the same byte order. The archive is structurally valid for an independent reader (block sizes, counts, offsets, padding), and a canonical archive is saved back byte for byte.',
 ['inputs'],'all lists of files of any sizes, with or without names, both byte orders; and valid archives with other file layouts',
 NOT+'NARC is not tested.',
 ['ndspy/narc.py','ndspy/fnt.py'],[('NARC._initFromData, save','ndspy/narc.py')],['ndspy.narc.NARC'])
p('C10','A ROM keeps all of its contents across save and load',
 'Saving a ROM object and loading the result gives the same ROM: every header value, both code binaries and the data after the ARM9 binary, overlay tables, icon banner, debug ROM, signature, filename table and every file under its ID. This holds for ROMs built from scratch and for loaded ROMs after any edits, including files that grow, shrink, become empty or are added.',
 ['inputs','histories'],'all ROM objects within the documented field sizes, including empty parts, and edit sequences on loaded ROMs',
 NOT+'no test loads or saves a ROM.',
 ['ndspy/rom.py'],[('NintendoDSRom._initFromData, save','ndspy/rom.py')],['ndspy.rom.NintendoDSRom'])
p('C11','Saved ROMs are structurally valid',
 'In every saved ROM the header describes what is really there: code, overlay tables, filename table, file allocation table, banner and debug ROM are found at the offsets and sizes the header gives, no two parts overlap, parts are aligned as cartridges require, and every file allocation entry delimits exactly its file. Header and logo checksums are correct, the size fields match the data, and when asked the capacity is the smallest cartridge that holds the data.',
 ['inputs'],'all ROM objects within the documented field sizes',
 NOT+'no test loads or saves a ROM.',
 ['ndspy/rom.py','ndspy/_common.py'],[('NintendoDSRom.save','ndspy/rom.py'),('crc16','ndspy/_common.py')],['bytes returned by NintendoDSRom.save, read by an independent parser'])
p('C12','Loading and resaving a canonical ROM reproduces it byte for byte',
 'Opening a ROM laid out the way retail ROMs are and saving it without changes gives the identical bytes, whatever the order in which its files are stored, and whichever optional parts (overlays, banner versions, debug ROM, signature, data after ARM9) it has. Saving a second time after another load changes nothing either.',
 ['inputs'],'all canonical ROM images from an independent image builder: part sizes, file orders, overlays, banner versions, optional parts',
 NOT+'no ROM is available to the test suite.',
 ['ndspy/rom.py'],[('NintendoDSRom._initFromData, save, sortedFileIds','ndspy/rom.py')],['NintendoDSRom(data).save()'])
p('C13','Editing one file by name or ID changes that file only',
 'In a ROM or NARC, after any sequence of reads and writes by filename or by ID, each file holds the last data written to it, reading by name and by ID agree, unknown names are refused with an error and change nothing, and all of it is still true after saving and loading. Everything else in the archive stays as it was.',
 ['histories'],'all sequences of get/set by name and by ID, additions, saves and reloads over all archives',
 NOT+'archives are not tested, let alone sequences of edits.',
 ['ndspy/rom.py','ndspy/narc.py','ndspy/fnt.py'],[('getFileByName, setFileByName','ndspy/rom.py'),('getFileByName, setFileByName','ndspy/narc.py')],['public file access methods'])
p('C14','BMG message files keep all of their content across save and load',
 'Saving a BMG in any supported encoding and byte order and loading it gives the same ID, encoding, byte order and unknown header values, the same messages (text, escape sequences with type and data, null messages, metadata) and the same script instructions, labels and scripts. Text is preserved exactly whenever the encoding can represent it.',
 ['inputs'],'all BMGs: 4 encodings x 2 byte orders, messages of strings and escapes, metadata sizes, instructions, labels, scripts, with files of any total size',
 'The BMG tests load and save a few fixed sample files; they never vary encoding, byte order, escape placement, padding or total size.',
 ['ndspy/bmg.py'],[('BMG._initFromData, BMG.save, Message.save, Escape.save','ndspy/bmg.py')],['ndspy.bmg.BMG'])
p('C15','BMG files are valid for other readers and resaved byte for byte',
 'Every saved BMG is a valid BMG file for an independent reader: section sizes, counts, offsets, padding and byte order are consistent, and each message offset leads to its text. A canonical BMG written by an independent writer loads to the content it was written with and is saved back byte for byte.',
 ['inputs'],'all BMG contents in all encodings and byte orders',
 'The BMG tests use a few fixed little-endian sample files.',
 ['ndspy/bmg.py'],[('BMG._initFromData, BMG.save','ndspy/bmg.py')],['ndspy.bmg.BMG'])
p('C16','Every sequence event decodes and encodes exactly as the format defines',
 'For every kind of sequence event and every value its fields can hold, the bytes written are the ones the format defines, their number equals the announced data length, and parsing them gives an event of the same kind with the same fields. A sequence file made of any such events is parsed and saved back byte for byte.',
 ['inputs'],'all event kinds with all field values, including variable-length durations at every size boundary, signed values, and nested random/variable/conditional events',
 NOT+'one README sequence is saved; only a handful of event kinds and values occur in it.',
 ['ndspy/soundSequence.py'],[('SequenceEvent subclasses, readSequenceEvents, saveSequenceEvents','ndspy/soundSequence.py')],['ndspy.soundSequence.SSEQ.events, event.save, SSEQ.save'])
p('C17','Sequence control flow survives parsing, editing and saving',
 'In a parsed sequence every jump, call and track start refers to the very event object that its offset designates, whether forwards or backwards. After any insertion, removal or reordering of events, saving writes offsets that lead to the same target events, so that reparsing gives the same event graph. A sequence whose data cannot be parsed stays unparsed and unchanged.',
 ['inputs','histories'],'all event lists with jumps, calls, returns and multiple tracks, and all edits of them',
 NOT+'the README example has no edited control flow.',
 ['ndspy/soundSequence.py'],[('readSequenceEvents, saveSequenceEvents','ndspy/soundSequence.py')],['SSEQ.parse, SSEQ.save'])
p('C18','Sequence archives keep their sequences, parsed or not',
 'A sequence archive keeps every sequence with its name, parameters and starting point across load and save, whether or not it is parsed in between, including sequences that share a start, start in the middle of others, or have no start. Unparsed archives are saved back byte for byte, parsed canonical ones too, and after edits each sequence still starts at its own first event. An archive whose data cannot be parsed stays unparsed and unchanged.',
 ['inputs','histories'],'all archives of sequences over one event list; parsed and unparsed; edits of events and sequences',
 NOT+'sequence archives are not tested.',
 ['ndspy/soundSequenceArchive.py','ndspy/soundSequence.py'],[('SSAR.__init__, parse, save; SSARSequence','ndspy/soundSequenceArchive.py')],['ndspy.soundSequenceArchive.SSAR'])
p('C19','Instrument banks keep every instrument',
 'Saving an instrument bank and loading it gives the same instruments in the same positions (missing ones included), each of the same kind with all note parameters, pitch ranges and regions, and the same wave archive IDs. The file is valid for an independent reader and a canonical bank is saved back byte for byte, including banks with unreachable or shared instrument data.',
 ['inputs'],'all banks of single-note, range, and regional instruments and empty slots with all parameter values, with shared and unreachable instruments',
 NOT+'banks are not tested.',
 ['ndspy/soundBank.py'],[('SBNK.__init__, save; instrument classes','ndspy/soundBank.py')],['ndspy.soundBank.SBNK'])
p('C20','Waves and wave archives keep sample data and settings',
 'Saving a wave or wave archive and loading it gives the same waves in the same order with identical sample data, format, loop settings, rate and timing value. Files are valid for an independent reader (sizes, offsets, loop and length words), canonical files are saved back byte for byte, and a wave taken out of an archive saves as the same stand-alone file.',
 ['inputs'],'all waves: three sample formats, loop flags, loop offsets, lengths, and archives of any number of waves, including none',
 NOT+'waves are not tested.',
 ['ndspy/soundWave.py','ndspy/soundWaveArchive.py'],[('SWAV','ndspy/soundWave.py'),('SWAR','ndspy/soundWaveArchive.py')],['ndspy.soundWave.SWAV, ndspy.soundWaveArchive.SWAR'])
p('C21','Streams keep their channel data and block structure',
 'Saving a stream and loading it gives the same channels, each with the same blocks of sample data, and the same format, loop, rate, timing and block parameters. The header of the saved file is consistent with the data for an independent reader (block count, block sizes, last block sizes, interleaving), and a canonical stream is saved back byte for byte.',
 ['inputs'],'all streams: mono and multi-channel, three sample formats, any number of blocks, full or short last block',
 NOT+'streams are not tested.',
 ['ndspy/soundStream.py'],[('STRM.__init__, save','ndspy/soundStream.py')],['ndspy.soundStream.STRM'])
p('C22','Sound archives keep every entry of every kind',
 'Saving a sound archive and loading it gives the same sequences, sequence archives, banks, wave archives, sequence players, stream players, groups and streams, in the same positions with the same names (or none), parameters and contents, including empty slots. Sharing of identical files between entries never changes what any entry contains.',
 ['inputs'],'all archives of generated entries of the eight kinds, named, unnamed and empty, with identical and different contents and merge IDs, and all padding options',
 NOT+'sound archives are not tested.',
 ['ndspy/soundArchive.py','ndspy/soundGroup.py','ndspy/soundSequencePlayer.py','ndspy/soundStreamPlayer.py'],[('SDAT._initFromData, save','ndspy/soundArchive.py')],['ndspy.soundArchive.SDAT'])
p('C23','Sound archive files are valid and resaved byte for byte',
 'Every saved sound archive is valid for an independent reader: block offsets and sizes, symbol strings, info records, file table entries and file alignment all agree with the contents and with the padding options. Entries share a file only if their data and merge IDs are equal, and a canonical archive is loaded and saved back byte for byte.',
 ['inputs','configurations'],'all archive contents and all combinations of alignment and padding options',
 NOT+'sound archives are not tested.',
 ['ndspy/soundArchive.py'],[('SDAT._initFromData, save','ndspy/soundArchive.py')],['bytes returned by SDAT.save, read by an independent parser'])
p('C24','Saving is repeatable and free of side effects; objects do not share state',
 'Saving any object twice in a row gives identical data, and saving does not alter what the object contains beyond what is documented; saving after edits gives what a new object with the same contents gives. The data that saving returns is independent of the object. Loading never modifies the data it was given, gives the same object whether the data is bytes or bytearray, and objects created or loaded separately never share mutable state, so that editing one leaves the others unchanged; the same goes for the parts of one loaded object.',
 ['inputs','histories'],'all supported kinds of objects with generated content; sequences of save, load and edit',
 NOT+'no test saves anything twice or looks for shared state.',
 ['ndspy'],[('constructors and save methods of all modules','ndspy')],['all public load and save methods'])
p('C25','File helpers and command-line tools do what the in-memory functions do',
 'Loading from a file path gives what loading its bytes gives, and saving to a path writes exactly the bytes that saving to memory gives, with all optional parameters passed on, for every class and compression module. The compression command-line tools read the input file, leave it unchanged, and write exactly the compressed or decompressed data to the given or default output path.',
 ['inputs','configurations'],'all supported kinds of objects with generated content; str and path-like paths; command lines with all subcommands, aliases and options',
 NOT+'no test touches the file helpers or the command-line tools.',
 ['ndspy'],[('fromFile/saveToFile','all modules'),('main','ndspy/lz10.py, ndspy/codeCompression.py')],['files in a scratch directory'])
p('C26','Files of the wrong kind or version are refused',
 'Loading data whose magic number or version is not the one the format requires fails with an error, instead of returning an object built from misread data. This holds for every file format the library reads that defines such a marker.',
 ['inputs'],'all otherwise valid files with any altered magic or version value, for every format',
 NOT+'a few invalid BMG headers at most are tried.',
 ['ndspy'],[('magic and version checks in all loaders','ndspy')],['exceptions from constructors'])
p('C27','Named-list helpers behave like an ordered multimap',
 'For every list of name-value pairs, finding, indexing and setting by name act on the first pair with that name, agree with each other, keep the length, order and all other pairs intact, and raise KeyError without changing the list when the name is absent.',
 ['inputs','histories'],'all lists of pairs, with duplicate, None, non-string and equal-but-distinct names, and sequences of operations',
 'The tests try three fixed lists of integers.',
 ['ndspy/__init__.py'],[('indexInNamedList, findInNamedList, setInNamedList','ndspy/__init__.py')],['ndspy.findInNamedList etc.'])
p('C28','2D graphics data decodes, encodes and renders exactly',
 'Palettes, image tiles and tilemaps load from any data of the right length and save back byte for byte, with every colour component, pixel, tile number, flip and palette number where the hardware format puts it. Rendering a tile or tilemap gives, for every pixel, the colour that the palette, flips and tile number determine, with colour 0 transparent. Looking up and replacing a tile by its position reaches exactly the tiles in the list.',
 ['inputs'],'all palettes, tiles in both depths, tilemaps in both formats, flips, palette numbers, tile offsets and widths',
 NOT+'graphics are not tested.',
 ['ndspy/color.py','ndspy/graphics2D.py'],[('loadPalette/savePalette, unpack/pack','ndspy/color.py'),('ImageTile, TilemapTile, render functions','ndspy/graphics2D.py')],['public functions of ndspy.color and ndspy.graphics2D'])
p('C29','Textures, texture files and models keep and render their content',
 'Saving a texture file and loading it gives the same textures and palettes with the same names, parameters, image data and colours, and texture files exported from or imported into a model do the same while leaving the rest of the model unchanged. Rendering a texture gives, for every pixel of every texture format, the colour and alpha that the hardware format defines.',
 ['inputs'],'all sets of textures in all formats and sizes, palettes, names, and minimal models around them',
 NOT+'textures and models are not tested.',
 ['ndspy/texture.py','ndspy/model.py','ndspy/_common.py'],[('NSBTX, Texture, Palette, renderTextureData','ndspy/texture.py'),('NSBMD','ndspy/model.py'),('loadInfoBlock/saveInfoBlock','ndspy/_common.py')],['ndspy.texture.NSBTX, ndspy.model.NSBMD'])
p('C30','Touch-area and cell layouts round-trip',
 'Saving a touch-area layout or a cell layout and loading it gives the same entries with the same positions, sizes, alignments and other fields, and loading a valid file and saving it gives the identical file. The top-left corner given for a touch area is the one that its position, size and alignment determine.',
 ['inputs'],'all lists of entries with all field values and alignments',
 NOT+'these formats are not tested.',
 ['ndspy/bnbl.py','ndspy/bncl.py'],[('BNBL','ndspy/bnbl.py'),('BNCL','ndspy/bncl.py')],['ndspy.bnbl.BNBL, ndspy.bncl.BNCL'])
p('C31','Music helpers keep timing and sound',
 'Measuring, moving through, splitting and looping tracks agrees with summing event durations in the current mono/poly mode, and cutting a rest or looping never changes the total time before the loop. Splitting a sequence into tracks and saving it plays the same events per track, and removing unused instruments and waves leaves every played note with the same wave data (in songs whose tracks choose an instrument before their first note). Initial settings of a track read back as set, and only the event concerned changes.',
 ['inputs','histories'],'all event lists with notes, rests and mode switches; all times; all multi-track sequences, banks and wave archives that use them',
 NOT+'the music helpers are not tested.',
 ['ndspy/extras/music.py'],[('durationOf, moveInTime, SimultaneousEventsModifier, SSEQMusic, minifyByEvents','ndspy/extras/music.py')],['ndspy.extras.music'])
p('C32','Every object can be printed, and printing shows its contents',
 'Converting any valid object to its text forms never fails and never changes the object, whatever its contents. The text forms of archives and filename tables show every file name with its ID, and those of sequences and message files show every event and message. The representations of events, messages, notes, instruments, players, group entries and layout entries tell apart any two that differ in a value; the printed form of a layout entry shows its position and alignment, and that of a texture its format and size. Binary data shown in a text form is the data of the object, or the start of it where an ellipsis follows.',
 ['inputs'],'all supported kinds of objects with generated content, including empty and unusual ones',
 'A few fixed objects are printed in tests of BMG only.',
 ['ndspy'],[('__str__ and __repr__ of all classes','ndspy')],['str(obj), repr(obj)'])
p('C33','Colours convert between all formats as accurately as possible',
 'Converting a colour between 16-bit, two-byte, 5-bit and 8-bit forms is lossless wherever the target can hold the value, in both directions, and otherwise gives the nearest value for each component. The lookup tables and the single-purpose packing, unpacking, expanding and contracting functions agree with the general conversion for every colour.',
 ['inputs'],'all 65536 colours of the hardware format, all 8-bit and 5-bit component values, and all pairs of formats',
 NOT+'colours are not tested.',
 ['ndspy/color.py'],[('convert, prepareLUTs, pack/unpack and related functions','ndspy/color.py')],['public functions of ndspy.color'])
p('C34','Objects made from parts keep those parts; what is left out has its default',
 'Every object made with a constructor or factory function has exactly the given values in the attributes of the same names, whether they were given by position or by name. Everything left out has its documented default value, a new ROM has a valid logo, and no two objects made share a default list or dictionary.',
 ['inputs','configurations'],'all public constructors and factory functions; all subsets of parameters given by position or by name, with all values',
 NOT+'few constructors are tried, each with one set of arguments.',
 ['ndspy'],[('__init__ and from... class methods of all modules','ndspy')],['attributes of new objects'])
p('C35','What a format cannot hold is refused, never saved as something else',
 'Whatever number is put into an attribute of an object, save() either raises an exception or gives data from which that same number is loaded again, and after a refusal the object with its old value still saves as before. Message texts with characters that the encoding lacks or that mark escapes and ends, escape data that is too long, message information and instructions of the wrong length, ROM codes, padding, logos and banners of the wrong length, tile data of the wrong length, tiles of mixed formats, texture sizes that are not powers of two from 8 to 1024, palettes that are not a multiple of 4 colours, texture and palette names of more than 16 characters, more than 8 regions, more than 4 wave archives, stream channels with different blocks, loops that start after the end, and notes outside of 0 to 127 are refused with an exception; the largest that fits is saved and loaded unchanged. (Positions and alignments of BNBL and BNCL files and instrument numbers in instrument switch events are stored modulo their range, and values that saving updates itself are not meant.)',
 ['inputs','states'],'all kinds of files and sequence events, all number attributes that the file holds in full, values at and beyond the limits of all field sizes; all documented limits of contents',
 NOT+'tests use values well within the limits.',
 ['ndspy'],[('save() of all classes','ndspy'),('Message.save','ndspy/bmg.py'),('NoteSequenceEvent.save','ndspy/soundSequence.py'),('saveImageTiles, saveTilemapTiles','ndspy/graphics2D.py')],['exceptions of save()','attributes of loaded objects'])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P), max(len(d['title']) for d in P))
