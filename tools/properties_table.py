I = ['inputs']; IC = ['inputs', 'configurations']; IH = ['inputs', 'histories']; S = ['schedules']
M2 = 'the tests run two fixed data sets (one small ASC and one TIFF) and compare a handful of cells'

prop('C01', 'Masking keeps exactly the raster values under the mask',
 "When a raster is built with a mask, every cell of the result that the mask marks valid and that lies inside the source raster holds the source value at that same geographic position (the default value when the source is nodata or the position is outside the source), and every other cell is nodata. The result's georeference is the mask's own when the mask extent is requested, otherwise the smallest rectangle of valid cells, and each layer of a multi-layer raster is masked alike.",
 IC, 'all cell contents, nodata patterns, offsets between raster and mask, and option combinations (position list on/off, mask extent on/off, default value given or not), for small grids',
 M2 + '; offsets, partial overlap and nodata patterns are unbounded',
 [DR], [('MaskAndCalculateValidPosition / GetPositionByCoordinate / SetUseMaskExt', DR)],
 observe=['GetValue(row, col, layer)', 'header'])

prop('C02', 'Cell lookup returns the stored value, nodata or an error, for any row and column',
 "Looking a cell up by row and column yields its position when the cell is valid, with compact storage a distinct answer when it lies in the grid but is not stored, and another one when it is outside the grid (with full storage every cell of the grid has a position); the value returned is the stored value for the first, the nodata value otherwise, on every layer, and the nodata predicate agrees with it. No row, column, layer or index, however wrong, makes a lookup touch memory outside the raster.",
 I, 'all rows, columns, layers and indices (full int range), all nodata patterns of small grids, with and without a position list',
 'tests probe a few fixed rows and columns of fixed files', [DR],
 [('GetPosition, GetValue, GetValueByIndex, ValidateRowCol/Layer/Index', DR)])

prop('C03', 'Compacting a raster to its valid cells changes no cell value',
 "Switching a raster to compact storage (only the cells valid in the first layer plus a list of their positions) leaves the value read at every row, column and layer unchanged (further layers being blank where the first is), keeps the list complete, in row-major order and free of duplicates, and reports exactly the number of valid cells. Repeating the operation, or a full-size export afterwards, yields the same raster again.",
 IH, 'all nodata patterns and contents of small grids, one or more layers',
 'tests compare a few cells of two data files', [DR], [('CalculateValidPositionsFromGridData, SetCalcPositions', DR)])

prop('C04', 'Coordinates and row/column positions correspond to each other',
 "The centre coordinate of every cell maps back to the same row and column; any point inside the extent maps to the cell whose rectangle contains it and any point outside the extent is reported as outside.",
 I, 'all points and georeferences over the stated lattice', 'tests convert two coordinates of one georeference',
 [DR], [('GetCoordinateByRowCol, GetPositionByCoordinate', DR)])

prop('C05', 'Splitting into subsets partitions the raster and combining restores it',
 "Splitting a raster by zone puts every valid cell in exactly one subset (or the group the caller assigned to its zone), with a bounding box that is tight and position lists that are consistent between the subset and the whole. Writing each subset's values and combining them yields, cell by cell, the original values; cells of subsets that are not usable become the default value, or nodata when none is given. A raster read under a mask that has been split has its valid cells split into the zones of the mask in the same way, and the application's decompose and combine modes are inverse to each other. Values whose number differs from the subset's are refused, and so is combining when a usable subset has no values or the numbers of layers differ.",
 IC, 'all zone assignments and nodata patterns of small grids, groupings, and contents', 'tests split one fixed mask',
 [DR], [('BuildSubSet, SubsetPositions, PrepareCombSubsetData', DR)])

prop('C06', 'Reclassification maps every listed value and blanks the rest',
 "After reclassification every valid cell whose value is in the table holds the mapped value, every valid cell whose value is not in the table is nodata, and nodata cells stay nodata, on every layer.",
 I, 'all contents, tables and layouts of small grids', 'tests reclassify one raster with a complete table', [DR], [('Reclassify', DR)])

prop('C07', 'Replacing the nodata value never changes which cells are valid or their values',
 "After the nodata value is replaced, every cell that was nodata holds the new nodata value and is reported as nodata, the header announces the new value, and every other cell keeps its value on every layer; the raster's recorded default value follows when it equalled the old one.",
 I, 'all contents, old and new nodata values, layers, with and without position list', 'tests replace one value on one data set', [DR], [('ReplaceNoData', DR)])

prop('C08', 'A copy of a raster is equal, independent and leak-free',
 "A copied or assigned raster reads the same as its source in every cell, header field, option and statistic; changing or destroying either afterwards never affects the other. Any sequence of copying, re-copying over an existing raster and destruction releases each block of memory exactly once.",
 IH, 'all small rasters (one and several layers, with and without positions, with statistics, subsets) and all orders of use',
 'tests copy one raster once', [DR], [('Copy', DR), ('ReleaseAllocatedMemory / destructor', DR)])

prop('C09', 'An ASC grid written to disk reads back as the same raster',
 "A single- or multi-layer raster exported as ASC text and read again has the same size, cell size, corner and nodata value, the same valid cells and the same values to the printed precision; with compact storage all nodata cells are restored in place.",
 I, 'all nodata patterns and integer-valued contents of small grids', 'tests write a file and compare a few values', [DR], [('OutputAscFile, WriteSingleAsc, WriteAscHeaders, ReadAscFile', DR)])

prop('C10', 'Reading an ASC grid is total: a raster or a clean failure, never corruption',
 "For any text the ASC reader either returns a raster with exactly rows x columns values taken in order from the text, together with the header values announced (corner converted to cell centre), or reports failure; it never crashes, reads or writes outside its buffers, or leaks.",
 I, 'all texts of a bounded number of lines and tokens, including truncated and malformed headers, short and long data', 'tests read two well-formed files', [DR], [('ReadAscFile', DR), ('LoadPlainTextFile', 'src/utils_filesystem.cpp')])

prop('C11', 'GeoTIFF export converts values exactly or refuses',
 "Exporting to a narrower cell type writes every valid value unchanged after conversion and writes the (type-appropriate) nodata value for every nodata cell, or, when a valid value does not fit the requested type, reports failure instead of writing a wrong number; reading the file back yields the same cells, nodata value and georeference.",
 IC, 'all cell values (full range of the in-memory type), all output types', 'tests export one data set whose values all fit', [DR], [('WriteSingleGeotiff, ReadRasterFileByGdal', DR)])

prop('C12', 'Statistics describe exactly the valid cells',
 "The reported count, minimum, maximum, mean, range and standard deviation are those of the valid cells of the layer asked for, nodata cells never contribute, every layer is reported alike whether asked singly or together, and a recomputation after changing cells reflects the change.",
 I, 'all contents and nodata patterns of small grids, up to three layers', M2, [DR, 'src/utils_math.h'], [('BasicStatistics', 'src/utils_math.h'), ('CalculateStatistics, GetStatistics', DR)])

prop('C13', 'Numbers and strings convert both ways without loss',
 "Every integer renders to text that parses back to the same integer (all widths, signed and unsigned, narrow and wide text), and a string is accepted as a number exactly when the whole of it is one; anything else is reported as not a number.",
 I, 'all 32/64-bit values; all strings up to the stated length', 'tests try a few numbers', ['src/utils_string.cpp', 'src/utils_string.h'], [('itoa family, IsInt/IsDouble family', 'src/utils_string.cpp')])

prop('C14', 'Splitting and trimming strings loses and invents nothing',
 "Splitting by a delimiter and re-joining with it restores the string (the empty tail after a final delimiter excepted), no piece contains the delimiter, and splitting on blanks yields exactly the maximal runs of non-blank characters in order. Trimming removes exactly the leading and trailing blanks and nothing else.",
 I, 'all strings up to the stated length, all delimiters', 'tests split a few strings', ['src/utils_string.cpp'], [('SplitString, Trim, TrimSpaces', 'src/utils_string.cpp')])

prop('C15', 'Case-insensitive matching and upper-casing are exact',
 "Two strings match exactly when they have equal length and agree in every character up to ASCII letter case; matching is reflexive and symmetric, and upper-casing changes only the ASCII lower-case letters, leaves the length alone and is idempotent.",
 I, 'all strings up to the stated length', 'tests compare a few words', ['src/utils_string.cpp', 'src/basic.cpp'], [('StringMatch, GetUpper', 'src/utils_string.cpp')])

prop('C16', 'Option and header maps keep the last value set for each key',
 "Setting a key in an option or header map stores exactly that value under that key, creates the key when it is missing, and leaves all other keys alone; merging one option map into another makes every key of the source hold the source value and keeps the remaining keys.",
 IH, 'all short sequences of updates with arbitrary keys and values', 'tests update one key', ['src/utils_string.cpp', DR, 'src/data_raster.cpp'], [('UpdateStringMap, CopyStringMap, UpdateHeader, UpdateStrHeader', DR)])

prop('C17', 'Calendar arithmetic is exact',
 "Leap years follow the Gregorian rule, day numbers advance by exactly one per calendar day, the day of the year counts from one, date-to-time and time-to-date conversions invert each other in UTC, and a date string renders and parses back to the same instant.",
 I, 'all dates of the years 1600 to 2400 (UTC)', 'tests check a few dates', ['src/utils_time.cpp', 'src/utils_time.h'], [('JulianDay, DayOfYear, ConvertYMDToTime, ConvertToTime, GetDateInfoFromTimet', 'src/utils_time.cpp')])

prop('C18', 'Only dotted-quad addresses are accepted as IP addresses',
 "A text is accepted as an IPv4 address exactly when it consists of four decimal numbers from 0 to 255 separated by single dots.",
 I, 'all strings up to the stated length', 'tests check a few addresses', ['src/basic.cpp'], [('IsIpAddress', 'src/basic.cpp')])

prop('C19', 'Path decomposition and recomposition are consistent',
 "For every path, directory, base name and extension taken apart and put together give the path back; replacing the extension changes only the extension, appending or prefixing text changes only the base name, and dots or separators elsewhere in the path are never mistaken for those of the file name.",
 I, 'all strings up to the stated length over separators, dots and letters', 'tests take two paths apart', ['src/utils_filesystem.cpp'], [('GetCoreFileName, GetSuffix, GetPathFromFullName, ReplaceSuffix, AppendCoreFileName, PrependCoreFileName, ConcatFullName', 'src/utils_filesystem.cpp')])

prop('C20', 'Directory operations touch only what they were asked to',
 "Cleaning a directory removes only regular files directly inside it, deleting a file removes exactly that file when it exists, file search returns exactly the entries of that directory carrying a requested extension, and nothing outside the named directory is ever removed.",
 ['inputs', 'histories'], 'all directory listings of a bounded number of entries with arbitrary short names and types', 'tests look at one fixed directory', ['src/utils_filesystem.cpp'], [('CleanDirectory, DeleteExistedFile, FindFiles, MakeDirectory', 'src/utils_filesystem.cpp')])

prop('C21', 'Loading a text file keeps every meaningful line in order',
 "Loading a plain-text file yields, in order and without duplication, exactly its lines that are not blank and not comments, stripped of a trailing carriage return; a missing file is reported as failure.",
 I, 'all texts up to the stated length', 'tests load one file', ['src/utils_filesystem.cpp'], [('LoadPlainTextFile', 'src/utils_filesystem.cpp')])

prop('C22', 'Array helpers allocate, fill, copy and free exactly what they say',
 "Creating a one- or two-dimensional array yields exactly the requested shape with every element equal to the initial value or to the copied source; releasing it frees every block once and nulls the pointer; invalid sizes are refused with a null result and nothing leaks.",
 I, 'all sizes within the bound (including zero and negative), all contents, all element types used', 'tests build a few arrays', ['src/utils_array.h', 'src/utils_array.cpp'], [('Initialize1DArray, Initialize2DArray, Release1DArray, Release2DArray, Batch*', 'src/utils_array.h')])

prop('C23', 'Numeric helpers agree with mathematics on their whole domain',
 "Minimum, maximum, sum and absolute value agree with their definitions for every input array; approximate equality is symmetric and obeys its tolerance; the tabulated and approximate functions never index outside their tables and stay within their documented error.",
 I, 'all arguments in the stated ranges', 'tests sample a few points', ['src/utils_math.h', 'src/utils_math.cpp'], [('Max, Min, Sum, Abs, FloatEqual, Expo, Power, Approx* , pow_lookup', 'src/utils_math.h')])

prop('C24', 'Parallel loops give the serial result under every schedule',
 "Every parallel loop of the library computes the same result with any number of threads and any interleaving as when run serially: no two iterations that may run on different threads touch the same memory with at least one write.",
 S, 'all interleavings of two or more threads executing the loop iterations, all contents of small grids', 'a test run exercises whatever interleaving happens', [DR, 'src/utils_array.h', 'src/utils_math.h'], [('#pragma omp parallel for', DR)])

prop('C25', 'The owning two-dimensional array has value semantics',
 "Copying, assigning, moving and destroying owning two-dimensional arrays in any order preserves contents, keeps copies independent and frees each block once.",
 IH, 'all short sequences of operations on small arrays', 'tests exercise one order', ['src/utils_array.h'], [('Array2D', 'src/utils_array.h')])

prop('C26', 'Command-line specifications are parsed as documented',
 "Modes and formats are recognised by their documented spellings in any letter case and everything else is unknown. A reclassification list yields exactly its well-formed pairs (items that are no pair with a whole-number key are ignored, the first definition of a key wins) and is refused when a new value is no number; a format/path specification yields the documented format and all listed paths and is refused when empty. A complete run in mask mode, given by arguments or by a configuration file in either documented way, writes the masked raster; no command line makes the application crash.",
 I, 'all strings up to the stated length over the relevant alphabet', 'the application has no tests', ['apps/mask_rasterio.cpp'], [('StringToIOMode, StringToDataFormat, parse_fmt_paths, parse_key_values', 'apps/mask_rasterio.cpp')])

prop('C27', 'Stacking layers keeps each layer cell for cell',
 "A multi-layer raster assembled from several single-layer files holds in layer k at each position valid in the first file the value of file k at the same geographic position (nodata where file k has none); positions without a value in the first file are nodata on every layer (under a mask and without compact storage they may keep the values of the further files). A missing or unreadable file makes the whole assembly fail without leaks.",
 IC, 'all contents, nodata patterns and offsets of small grids, up to three files', 'tests stack three fixed files', [DR], [('ReadFromFiles, AddOtherLayerRasterData', DR)])

prop('C28', 'Full-size export puts every cell in its place',
 "Exporting a compact, masked or subset-combined raster (its original values, or values given to its subsets) at full size writes every valid value at its own row and column of its own layer and nodata in every other cell.",
 IC, 'all contents, nodata patterns, position lists of small grids, output types, export paths', M2, [DR], [('OutputFileByGdal, OutputToMongoDB, PrepareCombSubsetData', DR)])

prop('C29', 'Rasters built from memory hold exactly the given data',
 "A raster constructed from arrays holds exactly the values, size, nodata value and georeference passed in, for one and several layers. Values given together with a mask are copied, so that the raster is independent of the caller's array afterwards; arrays given without one are taken over and released exactly once, with the raster.",
 I, 'all contents and sizes within the bound', 'tests build one array', [DR], [('clsRasterData constructors, Construct*', DR)])

prop('C30', 'Raster type names and default nodata values are consistent',
 "Converting a raster cell type to its name and back yields the same type, unknown names yield the unknown type, names are recognised in any letter case, and the default nodata value of every type is representable in that type.",
 I, 'all types, all strings up to the stated length', 'tests check some names', ['src/data_raster.cpp'], [('RasterDataTypeToString, StringToRasterDataType, DefaultNoDataByType', 'src/data_raster.cpp')])

prop('C31', 'A raster stored in GridFS reads back as the same raster',
 "A raster written to the database and read back has the same values, nodata cells, size and georeference for every storage type that can hold its values, and a stored stream whose length or type contradicts its metadata is refused.",
 ['inputs', 'fault_sequences'], 'all contents and types of small grids; all stored lengths', 'the database tests need a server and do not run', [DR, 'src/db_mongoc.cpp', 'src/db_mongoc.h'], [('ReadGridFsFile, WriteStreamDataAsGridfs', DR), ('GetStreamData, WriteStreamData', 'src/db_mongoc.cpp')])

prop('C32', 'Subset files are georeferenced to their own rectangle',
 "Each subset exported on its own carries the size and corner of its bounding rectangle, and every value in it sits at the same geographic position as in the whole raster, with nodata in the cells of other subsets, whether the original values, values given to the subsets or reclassification lists are written.",
 I, 'all zone assignments of small grids', 'tests inspect one mask', [DR], [('OutputSubsetToFile, GetHeader of subsets', DR)])

prop('C33', 'Database documents convert to numbers, texts, flags and times faithfully',
 "Reading a metadata field as number, text, flag or time returns the value stored whatever its stored type, and reports failure for missing or unsuitable fields; options written as metadata are read back as the same text or, if they are a number, as the same number, and collections that form a file store are listed under the store's own name.",
 I, 'all stored values', 'the database tests need a server and do not run', ['src/db_mongoc.h', 'src/db_mongoc.cpp'], [('GetNumericFromBson, GetStringFromBson, GetBoolFromBson, GetDatetimeFromBson, AppendStringOptionsToBson', 'src/db_mongoc.cpp')])
