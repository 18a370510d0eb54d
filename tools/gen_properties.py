#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Sector reordering is lossless and follows the documented interleave",
 "Reordering a 143,360-byte image by any permutation of the 16 sectors moves, on each of the 35 tracks, every 256-byte sector to exactly the position the permutation names and alters nothing else (the input buffer included); reordering by the inverse restores the original bytes. The DOS-order and ProDOS-order maps are the ones in the README's interleave table, so the `reorder` command turns a DOS-order image into the ProDOS-order image of the same physical disk and back again without loss. Buffers of any other size, and orders that are not a permutation of 0..15, are refused with an error.",
 ["inputs"],"every image content, every permutation and non-permutation of sector numbers, every buffer size",
 "The repository has no test of Swizzle or of the reorder command at all; a sampled image with repeated or blank sectors hides a misplaced sector.",
 ["disk/disk.go","disk/open.go","cmd/reorder.go"],[("Swizzle / validateOrder","disk/open.go"),("interleave tables and the ByName maps","disk/disk.go")],["disk.Swizzle","disk.LogicalToPhysicalByName, disk.PhysicalToLogicalByName","`diskii reorder`"])

p("C02","The reorder command picks the direction as documented and guards files",
 "`reorder` takes the two orders from its flags; if only one flag is given the other order is its opposite; if neither is given they come from the file extensions, ignoring case (.do and .dsk mean DOS order, .po means ProDOS order), an unknown extension meaning the opposite of the known one. It refuses, with a non-zero exit and without creating or changing any file, when the two orders are equal or cannot be determined, when the input is not a 140K image, or when a named output file already exists and -f was not given. When no output is named the input is converted in place; `-` reads stdin or writes stdout.",
 ["inputs","configurations"],"every combination of flags, extensions, pre-existing files and image sizes",
 "No existing test runs the command; the decision table has dozens of flag/extension/file-state combinations.",
 ["cmd/reorder.go","helpers/helpers.go","disk/open.go"],[("getOrders / oppositeOrder","cmd/reorder.go"),("OrderFromFilename","disk/open.go"),("WriteOutput","helpers/helpers.go")],["exit status, output file and input file of `diskii reorder`"])

p("C03","Opening an image shows the right sectors; writing back loses nothing",
 "Opening a 140K image in DOS or ProDOS order presents the file system with the same physical sectors whichever order the file is in: the operator's bytes are the file's sectors rearranged by the documented maps into that system's own order. Writing an unmodified operator back in the order it was opened in reproduces the file byte for byte, and a change to one logical sector changes exactly the 256 bytes of the corresponding sector of the file. A .hdv device is presented, and written back, without any rearrangement. Writing back without permission to overwrite never replaces an existing file.",
 ["inputs","configurations"],"every image content, every file order, every file-system order (DOS, ProDOS, raw), every modified sector, every device size",
 "Existing tests open one or two fixed images through one order and never write back.",
 ["disk/open.go","disk/disk.go"],[("OpenImage / openDoOrPo / openHDV","disk/open.go"),("WriteBack","disk/open.go")],["disk.OpenImage, Operator.GetBytes, disk.WriteBack"])

p("C04","Image opening honours order, system, extension and size rules",
 "For a 140K image an explicit order (do or po) is used whatever the extension; otherwise .do means DOS order, .po ProDOS order, and .dsk or no extension tries DOS order first and then ProDOS order (extensions ignore case), any other extension being an error. Within an order the registered systems (or only the named one) are tried in registration order and the first whose contents match is used, and the order that succeeded is reported; a system that matches but cannot be opened is passed over. When both the system and the order are fixed the named system is opened without guessing; other sizes are refused except .hdv devices, which open as ProDOS when they are a multiple of 512 bytes up to 32 MiB, in ProDOS order, with system auto or prodos. In particular a well-formed DOS 3.3, NakedOS or ProDOS image whose order is known is opened as that system under `auto`, and one whose VTOC or sector map has illegal fixed fields, or whose volume directory leads outside the disk, is not. An image read from standard input (`-`) is treated as a file without extension. (A 140K .hdv file under automatic order is left open.)",
 ["inputs","configurations"],"every combination of size, extension, order, system, registered systems and which of them match",
 "Existing tests open two fixed floppies with a fixed system; none explores the selection rules.",
 ["disk/open.go"],[("OpenImage / openDoOrPo / openHDV","disk/open.go"),("SeemsToMatch of each system","dos3/dos3.go, supermon/supermon.go, prodos/prodos.go")],["disk.OpenImage result, the operator's name and bytes, the reported order"])

p("C05","DOS 3.3 catalog lists exactly the active files",
 "On every well-formed DOS 3.3 image the catalog lists every active entry of the whole catalog-sector chain, in chain order and nothing else: never-used entries are skipped and deleted entries are reported only as deleted. Each listed file carries its name (high bit removed, trailing spaces trimmed), its 16-bit sector count, its locked flag and its type. `ls` prints those names one per line, in the same order.",
 ["inputs"],"every well-formed VTOC and catalog chain (any length, placement, mix of active, deleted and unused entries, types, locks, names, counts), in DOS- or ProDOS-order files",
 "One fixed disk with four plain files is catalogued today.",
 ["dos3/dos3.go","cmd/catalog.go"],[("readCatalogSectors / ReadCatalog","dos3/dos3.go"),("FileDesc.Status, FilenameString, descriptor","dos3/dos3.go")],["Operator.Catalog, dos3.ReadCatalog, `diskii ls`"])

p("C06","DOS 3.3 files are retrieved byte for byte",
 "Retrieving a file by its exact catalog name from a well-formed DOS 3.3 image returns exactly its stored bytes, whatever sectors its track/sector lists name and however many lists it needs, holes reading as zeros. Binary files yield their load address and exactly their declared length, Applesoft files (whose load address is always $801) and Integer files exactly their declared length, and text files everything up to the last non-zero byte (an empty text file is empty). A name that no active file has, and a declared length that the file's sectors do not hold, are errors, and `dump` writes the same bytes to standard output.",
 ["inputs"],"every file length (0 to beyond one track/sector list), sector placement, hole pattern, file type and set of neighbouring files",
 "No existing test retrieves a DOS 3.3 file.",
 ["dos3/dos3.go","cmd/dump.go"],[("FileDesc.Contents","dos3/dos3.go"),("operator.GetFile / fileForFilename","dos3/dos3.go")],["Operator.GetFile, `diskii dump`"])

p("C07","DOS 3.3 sector structures decode and encode faithfully",
 "For every 256-byte sector, reading it as a VTOC, a catalog sector or a track/sector list puts each field where DOS 3.3 defines it, and writing the structure back reproduces all 256 bytes; other lengths are refused. The VTOC's free-sector map answers for each track and sector according to the DOS bit layout (sectors 15-8 in the first byte, 7-0 in the second), and VTOC validation accepts exactly the VTOCs whose fixed fields have their legal values: a volume number other than 255, release 3, allocation direction +1 or -1, 35 tracks, 13 or 16 sectors, 256 bytes per sector, 122 track/sector pairs, and zero spare bytes in the free-sector map.",
 ["inputs"],"every 256-byte sector, every field value, every track/sector of the free map",
 "The existing round-trip tests feed random bytes through decode+encode only: two fields swapped in both directions, or a wrong bit in the free map, pass.",
 ["dos3/dos3.go","disk/marshal.go"],[("VTOC, CatalogSector, FileDesc, TrackSectorList marshalling","dos3/dos3.go"),("TrackFreeSectors.IsFree, VTOC.Validate, DefaultVTOC","dos3/dos3.go")],["FromSector / ToSector, exported fields, IsFree, Validate"])

p("C08","ProDOS catalog lists every directory exactly",
 "On every well-formed ProDOS volume (floppy or .hdv) the catalog of the volume directory, and of every subdirectory at any depth named by its slash-separated path, lists exactly the active entries of that directory's whole block chain, in order, deleted entries skipped. Each entry carries its name, file type, blocks used and 24-bit length. A path that names no subdirectory is an error, and `ls` prints the names one per line.",
 ["inputs"],"every well-formed directory tree: depth, block chains, placement, names, entry slots, deleted entries, parent pointers to the key block or to the block holding the entry",
 "No existing test reads a ProDOS catalog.",
 ["prodos/prodos.go","cmd/catalog.go"],[("readVolume / readSubdirectory","prodos/prodos.go"),("parentDirName","prodos/prodos.go"),("operator.Catalog","prodos/prodos.go")],["Operator.Catalog, `diskii ls`"])

p("C09","ProDOS block structures, index blocks and bitmap are faithful",
 "For every 512-byte block, reading it as a volume-directory key block, volume-directory block, subdirectory key block or subdirectory block puts each field where ProDOS defines it, writing it back reproduces all 512 bytes, and validation complains exactly when a checked field is illegal (a non-zero previous pointer in a key block, a non-zero trailing byte, a time with hour above 23 or minute above 59, a subdirectory header without its $75 marker). A block number set at a position of an index block is the one read back there, stored low byte in the first half and high byte in the second, other positions unchanged. A volume bitmap of any size up to 65,535 blocks starts all free, marking a block used or unused changes only that block's answer, and the written bitmap has that block's bit set exactly when it is free (most significant bit first), in the bitmap's own blocks only.",
 ["inputs","histories"],"every 512-byte block, every index position and block number, every bitmap size and mark/unmark history",
 "The existing round-trip tests cannot see symmetric field mistakes, and index blocks and bitmaps are never exercised.",
 ["prodos/prodos.go","disk/marshal.go"],[("toBytes/fromBytes pairs, Validate","prodos/prodos.go"),("IndexBlock.Get/Set","prodos/prodos.go"),("VolumeBitMap","prodos/prodos.go")],["FromBlock/ToBlock, exported fields, Validate, IndexBlock, VolumeBitMap"])

p("C10","A NakedOS disk behaves as a map from file number to contents",
 "Over any history of puts, gets, deletes and re-opens on a NakedOS/Super-Mon disk, every file reads back as the bytes last put there (zero-padded to whole 256-byte sectors), deleted files are gone, and all other files keep their contents and length; a fetched file is described (name, length, sectors, type) as it is listed, with the start address $1800 if it is DF01, the one NakedOS starts. Each sector belongs to exactly one of free, reserved or a single file, reserved sectors never change except for the sector map they hold, and free space always equals what is left. A put succeeds whenever its file number is available (or overwriting is allowed) and the contents fit in the free space plus the space of the file being replaced; put and delete report truthfully whether the file existed. A disk is accepted as NakedOS exactly when its map reserves track 0 sectors 0-B and names no illegal owner (00), and no sector outside the disk can be given to a file, nor any sector to a number that is not a file.",
 ["histories","inputs"],"every sequence of operations, file sizes (1 byte to disk-full), file numbers 1-FD, initial sector maps (fragmented or not), with or without a symbol table; files 3 and 4 of a disk with a symbol table hold that table and are not put or deleted by name",
 "The existing tests do one get and one put on one disk.",
 ["supermon/supermon.go"],[("SectorMap.WriteFile / ReadFile / Delete / Persist","supermon/supermon.go"),("Operator.PutFile / GetFile / Delete / Catalog","supermon/supermon.go")],["Operator methods, Operator.GetBytes re-opened, SectorMap queries"],
 [("SectorMap","560-byte owner map at track 0 sectors 9-B","supermon/supermon.go")])

p("C11","The Super-Mon symbol table never loses or corrupts a symbol",
 "Over any history of adding, re-pointing and deleting symbols, writing the table to disk and reading it back, the table holds exactly the symbols last set, each at its last address: adding or deleting one symbol never alters, drops or resurrects another, and the table on disk always stays readable. Every valid symbol name (3 to 9 letters and digits that fit 48 bits: 5 bits per letter, 6 per digit) survives the round trip, upper-cased; every other name is rejected. Adding to a table with no free slot is an error that changes nothing. Where the symbols of each hash formed one link chain before, they still do; a table with an out-of-range, misaligned, self-referring or cross-hash link is refused.",
 ["histories","inputs"],"every sequence of add/re-point/delete/write/read on tables from empty to full, with any hash collisions and initial link chains, and every symbol name",
 "The existing tests round-trip one table unmodified and eleven sample names.",
 ["supermon/supermon.go"],[("AddSymbol / DeleteSymbol link maintenance","supermon/supermon.go"),("ReadSymbolTable / WriteSymbolTable","supermon/supermon.go"),("encodeSymbol / decodeSymbol","supermon/supermon.go")],["SymbolTable methods, SectorMap.ReadSymbolTable / WriteSymbolTable, Operator.PutFile / Delete with symbolic names"])

p("C12","NakedOS names resolve to the right file everywhere",
 "A hexadecimal name XX or DFXX (01-FD, any case) means that file number; any other name means the file whose symbol it is (ignoring case), or is not found; NN:SYMBOL means the number, plus the symbol's current file if it has one. Listing shows each file, in order of file number, as DFXX:SYMBOL (short form SYMBOL) when a symbol points at it and as DFXX otherwise, and a file listed under a symbol can be fetched under both its number and that symbol. For address parsing, XXXX, SYMBOL and XXXX:SYMBOL give the address, the symbol's address and the symbol name, a valid unknown symbol being accepted as a name and malformed input (empty parts, more than one colon, bad hex, invalid symbol) refused.",
 ["inputs"],"every name string and every symbol table",
 "The existing tests look up one symbolic name.",
 ["supermon/supermon.go"],[("parseAddressFilename / FileForName / FilesForCompoundName","supermon/supermon.go"),("ParseCompoundSymbol","supermon/supermon.go"),("NameForFile / FullnameForFile / Catalog","supermon/supermon.go")],["the exported naming functions, Catalog, GetFile"])

p("C13","A refused NakedOS operation changes nothing and says why",
 "When a put, get or delete on a NakedOS disk returns an error, the disk image, the sector map and the symbol table are exactly as they were before the call. Putting onto an existing file without overwrite is reported as file-exists, contents that do not fit as out-of-space, and getting an unknown symbolic name as file-not-found, each recognised by its own predicate and by no other (a put that both conflicts and does not fit may be reported as either). Puts that are not of binary type, whose declared length disagrees with the data, that are empty, that use an unusable name, or that need a symbol table the disk lacks are refused; deleting an unknown name returns false without an error.",
 ["inputs","histories"],"every reachable disk state and every kind of refused operation (exists, full disk, full symbol table, no free file number, bad name, bad type, bad length, no symbol table)",
 "No existing test makes an operation fail.",
 ["supermon/supermon.go","errors/errors.go"],[("check order in WriteFile and PutFile","supermon/supermon.go"),("error classification","errors/errors.go")],["return values, Operator.GetBytes, SM and ST before and after; errors.Is*"])

p("C14","No disk image can crash or hang the tool",
 "For every image file of any size and content, under every order, system and extension, opening it, listing any directory, retrieving any listed or unlisted file, deleting and putting either succeed or return an error: they never panic, and never loop, recurse or allocate without end.",
 ["inputs"],"every byte content (arbitrary, and well-formed images with corrupted pointers, lengths, counts and links, including cyclic chains) and every size",
 "Existing tests read only intact images.",
 ["disk/open.go","dos3/dos3.go","prodos/prodos.go","supermon/supermon.go"],[("bounds checks in ReadSector / UnmarshalBlock","disk/marshal.go"),("chain-cycle detection","dos3/dos3.go, prodos/prodos.go"),("length checks in GetFile","dos3/dos3.go"),("Verify, ReadSymbolTable checks","supermon/supermon.go")],["process survival, CPU time and memory of disk.OpenImage, Catalog, GetFile, Delete, PutFile"])

p("C15","No byte sequence can crash or hang the BASIC decoders",
 "For every byte sequence (and every load location) the Applesoft and Integer BASIC decoders and their listing output terminate with either a listing or an error; they never panic, never follow line links for ever, and never produce more lines than the input has bytes.",
 ["inputs"],"every byte sequence and load location, including truncated programs, self-referencing links and out-of-range links and lengths",
 "The only running test decodes one valid program.",
 ["basic/applesoft/applesoft.go","basic/integer/integer.go","cmd/applesoft.go"],[("range checks on line links and lengths","basic/applesoft/applesoft.go, basic/integer/integer.go")],["applesoft.Decode, integer.Decode, Listing.String, `diskii applesoft decode`"])

p("C16","Applesoft programs list exactly as stored",
 "Decoding a well-formed tokenised Applesoft program, at any load location, with or without the two-byte length header and the trailing DOS byte, yields exactly its lines in link order, each with its line number and unmodified bytes. The listing prints per line the number, a space, each plain character as itself and each token byte 80-EA as its keyword between spaces, then a newline; a token byte above EA is an error. `applesoft decode` prints that listing, with control codes escaped unless raw output is asked for.",
 ["inputs"],"every program: line numbers, lengths, tokens, characters, layout of lines in memory, load location, framing",
 "One ten-line sample program is decoded today.",
 ["basic/applesoft/applesoft.go","cmd/applesoft.go"],[("Decode","basic/applesoft/applesoft.go"),("TokensByCode, Line.String, Listing.String","basic/applesoft/applesoft.go")],["applesoft.Decode, Listing.String, `diskii applesoft decode`"])

p("C17","Integer BASIC programs decode to exactly their lines and text",
 "Decoding a well-formed Integer BASIC program, with or without the two-byte length header, yields exactly its lines in order, each with its line number and the bytes between number and end-of-line marker. In the listing of a line, remarks and string literals appear verbatim (digits included), integer constants appear as their decimal value, variable names keep their digits, and every token byte appears as its keyword, in program order (the spaces around keywords are not part of this). A line whose length runs past the input, or that does not end in the end-of-line marker, is an error.",
 ["inputs"],"every program built from tokens, variable names, constants 0-65535, string literals and remarks",
 "The only test of the package is skipped.",
 ["basic/integer/integer.go"],[("Decode","basic/integer/integer.go"),("TokensByCode, Line.String","basic/integer/integer.go")],["integer.Decode, Line.String, Listing.String"])

p("C18","Control codes are made visible without touching other text",
 "Escaping control codes leaves every byte outside 00-1F, and newline and tab, exactly as it is, and replaces each other control code by its chevron form: ctrl-A to ctrl-Z for 01-1A, some text in chevrons for 1B, and NUL, FS, GS, RS, US for 00 and 1C-1F. The output therefore contains no control code but newline and tab, and escaping it again changes nothing.",
 ["inputs"],"every byte string, valid UTF-8 or not",
 "One control code appears in one existing test.",
 ["basic/basic.go","basic/integer/integer.go"],[("ChevronControlCodes","basic/basic.go, basic/integer/integer.go")],["basic.ChevronControlCodes, integer.ChevronControlCodes, `diskii applesoft decode`"])

p("C19","A Standard Delivery disk boots, loads the binary and jumps to it",
 "`mksd` turns any binary it accepts into a 143,360-byte image in the requested order from which the Disk II boot ROM, running the image's boot sector, loads every byte of the binary at the load address and then jumps to the start address. It accepts every binary of 1 to 176 pages, loaded page-aligned at 0900 or above and ending at or below C000, with a start address inside it; it refuses, with a non-zero exit and without touching the output file, an unaligned address, a start outside the binary, a load past BFFF, and an over-long or empty binary. Addresses may be given in decimal, hexadecimal, octal or binary and must fit 16 bits.",
 ["inputs","configurations"],"every binary length and content, load and start address, output order or extension, number format",
 "There is no test of the command; a wrong sector skew or page byte only shows on a real boot.",
 ["cmd/sd.go","disk/disk.go","main.go"],[("SDCmd.Run sector/page placement","cmd/sd.go"),("hexUint16Mapper","main.go"),("Swizzle to file order","disk/open.go")],["the written image, executed by an emulated 6502 and Disk II boot ROM"])

p("C20","mkhello writes an FHELLO that loads the named file and jumps to it",
 "On a NakedOS disk with a symbol table, `nakedos mkhello` replaces file DF01, named FHELLO, by the program: call NakedOS read-file for the file number that the given name denotes, into the page of the load address, then jump to the start address (the load address unless given). No other file's contents, length or name changes (except that the name FHELLO itself moves to DF01), in images of either order. An unaligned load address, a start below it, an unknown name, a disk that is not NakedOS or has no symbol table, no room in the table for FHELLO, or no free sector for a new DF01 is refused with the image unchanged.",
 ["inputs","configurations"],"every named file (number, symbol or compound), load and start address, disk state and image order",
 "There is no test of the command.",
 ["cmd/nakedos.go","supermon/supermon.go","main.go"],[("MkHelloCmd.Run","cmd/nakedos.go"),("FilesForCompoundName","supermon/supermon.go"),("WriteBack","disk/open.go")],["image file before and after `diskii nakedos mkhello`"])

p("C21","File type names and file types correspond exactly",
 "Every file type that the tool lists is found by its full name, and every three-letter or one-letter name listed finds a type that lists that name (the first one, when several share it); any other string, the empty string included, is an error. Every ProDOS/SOS type byte except F9 and the three DOS-only types has exactly one entry, whose numeric value is the ProDOS type byte, whose text form names it; other values print as unknown. `filetypes` prints the description and names of exactly the types not marked as extra (SOS, user-defined and reserved ones), and with --all of every type.",
 ["inputs"],"every string and every type value",
 "There is no test of the package.",
 ["types/filetype.go","cmd/filetypes.go"],[("FiletypeForName","types/filetype.go"),("filetypeInfos and init","types/filetype.go")],["types.FiletypeForName, FiletypeInfos, Filetype.String, `diskii filetypes`"])

p("C22","The command line edits NakedOS image files faithfully",
 "Over any history of `put`, `rm`, `dump` and `ls` commands on a NakedOS image file in either sector order, the image always contains exactly the files the commands put there plus the untouched original ones, under the names given. `dump` writes exactly a file's stored sectors, `ls` lists each file once, in order of file number (full names, or short with -s), and the image stays 143,360 bytes, in its own order. Reading the image or the data from `-` and writing to `-` behaves like using files.",
 ["histories","configurations"],"every command sequence, file size, name form, image order and extension",
 "No existing test runs any command.",
 ["cmd/put.go","cmd/delete.go","cmd/dump.go","cmd/catalog.go","disk/open.go","helpers/helpers.go"],[("PutCmd, DeleteCmd, DumpCmd, LsCmd","cmd"),("OpenFilename / WriteBack","disk/open.go"),("FileContentsOrStdIn / WriteOutput","helpers/helpers.go")],["image file, stdout and exit status of the built binary"])

p("C23","Failing and read-only commands never alter an image",
 "`ls`, `dump` and `filetypes` never change any file. Any `put`, `rm`, `mkhello`, `mksd` or `reorder` that exits non-zero leaves every existing file byte-identical and creates none, whatever made it fail: an unsupported system, a bad argument (including a number that is not a 16-bit one, or an unknown file type), a name conflict, a full disk, an unreadable or wrong-sized image (only the final write of the output itself failing half-way is excepted). A command that fails prints a message on standard error and exits non-zero; in particular, output that cannot be written is reported as failure, not success.",
 ["inputs","configurations","fault_sequences"],"every command line over every kind of image (DOS 3.3, ProDOS, NakedOS, garbage, wrong size), argument and output fault",
 "No existing test runs a failing command.",
 ["cmd","disk/open.go","helpers/helpers.go","main.go"],[("error return before WriteBack in every command","cmd"),("WriteOutput force check","helpers/helpers.go"),("exit status","main.go")],["files before and after, exit status and stderr of the built binary"])

p("C24","Sector and block access touches exactly the addressed bytes",
 "Over any history of sector and block reads and writes on an image, writing a sector changes exactly its 256 bytes and writing a block exactly its 512 bytes, and reading returns what was last written there; changing a returned sector does not change the image. Structures are marshalled to and from exactly the track and sector, or block, they say they came from. An access that does not fit in the image, or a sector write that is not 256 bytes, is refused without changing anything.",
 ["histories","inputs"],"every image size, track/sector (any byte values), block number and history of accesses",
 "No existing test covers these primitives directly.",
 ["disk/marshal.go"],[("ReadSector / WriteSector / Marshal* / Unmarshal*","disk/marshal.go")],["the exported functions and the image bytes"])

p("C25","Damage is reported, never passed off as a complete result",
 "When a DOS 3.3 catalog chain loops or leads outside the disk, or the VTOC has an illegal fixed field, listing the disk is an error rather than a shortened list; when a DOS 3.3 file's track/sector lists loop, or they or the sectors they name lie outside the disk (track above 34 or sector above 15), retrieving that file is an error, while every other file of the disk is still retrieved exactly. When a ProDOS directory's block chain loops or leaves the device, or its key block lies outside the device, listing that directory is an error, and listing any other directory gives either an error or exactly its entries. An Applesoft program whose line links loop or leave the program, or that is cut short, is an error rather than a shortened listing. `ls`, `dump` and `applesoft decode` then exit non-zero.",
 ["inputs","fault_sequences"],"every well-formed disk, volume or program with one pointer or fixed field damaged, at any position of any chain",
 "No existing test reads a damaged disk or program.",
 ["dos3/dos3.go","prodos/prodos.go","basic/applesoft/applesoft.go"],[("readCatalogSectors and FileDesc.Contents","dos3/dos3.go"),("readVolume / readSubdirectory","prodos/prodos.go"),("Decode","basic/applesoft/applesoft.go")],["Catalog, GetFile and Decode results, exit status of `ls`, `dump`, `applesoft decode`"])
p("C26","Work on one image never shows in another",
 "The library keeps no hidden state: whatever is done to an image (opening, listing, getting, putting, deleting, writing back, reordering) or decoded from a program, sector or block gives the same results and bytes as it does alone in a new process, however it is interleaved with work on other images, even ones of the same kind, name and size, and however often it was done before. Working on different images in several goroutines at the same time gives each the same results too, without data races. What an operation returned (a listing, a file's contents, a decoded program or structure, reordered bytes) is not changed by later operations, and the bytes handed in to open a 140K image are never changed.",
 ["inputs","histories","schedules"],"every set of images, every operation history on each, every interleaving of them",
 "Tests open a few images one after another and never compare with work on another image.",
 ["disk/open.go","disk/marshal.go","dos3/dos3.go","prodos/prodos.go","supermon/supermon.go","types/filetype.go"],[("OpenImage / Swizzle","disk/open.go"),("Operator methods","supermon/supermon.go"),("readCatalogSectors and FileDesc.Contents","dos3/dos3.go"),("readVolume","prodos/prodos.go")],["results of every exported operation, GetBytes, the race detector's reports"])

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
