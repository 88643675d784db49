#!/usr/bin/env python3
"""Regenerates properties.jsonl (single place where the property texts live)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if observe: d['anchors']['observe_at']=observe
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    d['anchors']['hook_needed']=None
    P.append(d)
FU='FCollada/FUtils/'; FM='FCollada/FMath/'; FC='FCollada/FCDocument/'

p('C01','Checksum of a text is the standard CRC-32 of its bytes',
 'For every zero-terminated text, narrow or wide-character overload, the checksum function returns the standard reflected CRC-32 (polynomial 0xEDB88320, initial and final value 0xFFFFFFFF) of its bytes before the terminator. It reads no byte after the terminator and terminates on every text. The generated lookup table and the run-time computation can therefore never disagree with a checksum computed elsewhere or stored earlier.',
 ['inputs'],'every byte string of every length, including bytes >= 0x80','Tests compare a handful of strings; one wrong table entry or sign-extension only shows on particular byte values and prefixes.',
 [FU+'FUCrc32.h',FU+'FUCrc32.cpp'],[('CRC32','FUCrc32.cpp'),('256-entry lookup table','FUCrc32.cpp')],['return value of CRC32'])
p('C02','Base-64 text encodes and decodes data without loss',
 'Encoding any byte array gives exactly the RFC 4648 base-64 text of those bytes, with the correct length and padding for every length modulo 3. Decoding the encoded text gives back exactly the original bytes and count, for every content. Neither direction reads or writes outside its input and output buffers, for any input text to the decoder.',
 ['inputs'],'all byte arrays of every length for encode and round trip; all texts for decoder memory safety','Padding/sign/shift slips depend on length mod 3 and byte values; there is no base-64 test with full domain.',
 [FU+'FUBase64.h',FU+'FUBase64.cpp'],[('encode/decode','FUBase64.cpp')],['output list contents and size'])
p('C03','Dynamic arrays behave as mathematical sequences',
 'After any sequence of public operations (construct, copy, assign, append, insert one/range/filled, erase one/range/by value, resize, reserve, clear, pop, find, contains) a dynamic array holds exactly the elements a mathematical sequence would hold, in order, with size no larger than capacity and all element access inside the allocated buffer. Elements of class type are constructed exactly once before use and destroyed exactly once, never copied as raw garbage. Source arrays of copies stay unchanged and comparison is equal exactly when sizes and all elements agree.',
 ['inputs','histories'],'all array sizes, capacities, contents, positions; plain and class-type elements','Unit tests exercise a few small erases and finds; off-by-one on growth, tail moves and capacity depend on size/capacity combinations.',
 [FM+'FMArray.h',FM+'FMArrayPointer.h'],[('size/reserved/heapBuffer representation','FMArray.h fm::vector')],['size()','operator[]','iterators'],
 [('heapBuffer,sized,reserved','storage, element count, capacity','FMArray.h')])
p('C04','Text strings keep their content exactly',
 'Every string operation (construct from text/part/repeated character, copy, assign, append, insert, erase, substring, replace, find forward/backward of character, text or character set, compare, equality, pop) yields exactly the text the corresponding mathematical operation on character sequences yields, for all lengths and contents. The stored text always stays zero-terminated with the reported length equal to the number of characters before the terminator. No operation reads or writes outside its buffers.',
 ['inputs','histories'],'all strings, positions, counts and characters','Tests sample a few words; boundary positions, empty strings and repeated sets are not covered.',
 [FU+'FUString.h',FU+'FUString.cpp'],[('stringT over zero-terminated vector','FUString.h')],['c_str()','length()'])
p('C05','Text builders accumulate exactly what was appended',
 'A text builder holds, after any sequence of appends (characters, texts, other builders, signed and unsigned integers, hexadecimal bytes), removals, pops and resets, exactly the concatenation of the rendered pieces in order, independent of how often its buffer had to grow. Converting to a string returns exactly that text, zero-terminated, and index searches return the first respectively last position of a character or report none. It never writes outside its buffer.',
 ['inputs','histories'],'all append sequences, buffer fill levels and values','Growth boundaries depend on exact fill level; tests append short texts only.',
 [FU+'FUStringBuilder.h',FU+'FUStringBuilder.hpp'],[('enlarge on append','FUStringBuilder.hpp')],['ToString()','ToCharPtr()','length()'])
p('C06','Integers in text are parsed and printed faithfully',
 'Parsing a text as signed, unsigned or hexadecimal integer skips leading blanks, and returns exactly the value denoted by the maximal run of digits (with optional minus sign for signed values) whenever it fits the type; booleans are recognised by their COLLADA spellings. Printing an integer and parsing it back gives the same integer for every 32-bit value. The cursor-advancing forms never move or read past the terminator and leave the cursor at the next token or the end.',
 ['inputs'],'every text and every 32-bit value','Tests parse a few literals; extreme values, signs and trailing characters are not sampled.',
 [FU+'FUStringConversion.h',FU+'FUStringConversion.hpp',FU+'FUStringConversion.cpp'],[('ToInt32/ToUInt32/HexToUInt32/ToBoolean','FUStringConversion.hpp')],['return value','advanced cursor'])
p('C07','Decimal numbers in text are read with their denoted value',
 'Parsing a text as a floating-point number yields the real value denoted by sign, integer digits, fraction and decimal exponent, up to floating-point rounding, for every well-formed numeral whose value is representable; INF and -INF are read as the infinities. The cursor stops after the numeral and following blanks and never moves past the terminator. Characters after the numeral do not influence the value.',
 ['inputs'],'every well-formed numeral text','Tests use few decimal texts; exponents with sign, long fractions and infinities are not sampled.',
 [FU+'FUStringConversion.hpp'],[('ToFloat','FUStringConversion.hpp')],['return value','advanced cursor'])
p('C08','Number lists in text are read completely, in order and within bounds',
 'Reading a blank-separated text list of numbers or words into an array delivers exactly the listed items in order, and reading into a bounded array or a vector/matrix stops at the requested count or at the end of the text. Counting the items of a text gives exactly the number of blank-separated words. No list reader reads past the terminator or writes outside the destination, whatever blanks surround the items.',
 ['inputs'],'all texts of any length, all blanks (space, tab, CR, LF), all requested counts','Real files contain arbitrary white space and truncated lists; tests sample none of these exhaustively.',
 [FU+'FUStringConversion.h',FU+'FUStringConversion.hpp',FU+'FUStringConversion.cpp'],[('CountValues, To*List','FUStringConversion.hpp')],['resulting lists'])
p('C09','Matrix and vector algebra is exact linear algebra',
 'Over the reals, 4x4 and 3x3 matrix product, transpose, determinant, inverse, point, vector and coordinate transformation, and 2-, 3- and 4-vector sum, difference, scaling, dot and cross product equal their textbook definitions for all entries; a matrix times its inverse is the identity whenever the determinant is not (nearly) zero. Translation, scale and component extraction constructors/accessors agree with that algebra. Operations in place and out of place agree, and operands other than the destination are unchanged.',
 ['inputs'],'all real matrix and vector entries','A handful of numeric examples cannot settle a sign or index slip in one cofactor.',
 [FM+'FMMatrix44.cpp',FM+'FMMatrix44.h',FM+'FMMatrix33.cpp',FM+'FMMatrix33.h',FM+'FMVector3.h',FM+'FMVector2.h',FM+'FMVector4.h'],[('operator*, Inverted, Determinant, TransformPoint','FMMatrix44.cpp')],['returned matrices and vectors'])
p('C10','Rotations in every representation describe the same rotation',
 'Rotation matrices built from an axis and angle, from the coordinate axes, from Euler angles (about z first, then y, then x) and from quaternions describe the same right-handed rotation; they are orthonormal with determinant 1 and leave the axis fixed. The quaternion of an axis and angle is a unit quaternion of that rotation; the matrix of a product a*b of unit quaternions is the matrix of b times the matrix of a, the product is associative with the identity neutral, and the conjugate undoes the rotation. The quaternion of a rotation matrix and the axis and angle or Euler angles of a quaternion (away from the poles) give the same rotation back; Decompose and Recompose of translation * rotation * positive scale are inverse to each other; spherical interpolation starts and ends at its operands.',
 ['inputs'],'all unit axes, angles and quaternions (real arithmetic)','Tests use a few special angles.',
 [FM+'FMMatrix44.cpp',FM+'FMQuaternion.cpp',FM+'FMQuaternion.h',FM+'FMAngleAxis.h'],[('AxisRotationMatrix, EulerRotationMatrix, FMQuaternion::ToMatrix/operator*','FMMatrix44.cpp, FMQuaternion.cpp')],['matrices and rotated vectors'])
p('C11','Bounding volumes enclose everything included in them',
 'After including a point, box or sphere, a bounding box or sphere contains it and everything it contained before; boxes grow no further than needed, and including an empty (invalid) volume has no effect. Overlap tests are symmetric and agree with the geometric definition: boxes overlap exactly when their coordinate ranges meet, spheres exactly when their centres are closer than the sum of the radii, sphere and box exactly when the nearest point of the box is closer than the radius, and empty volumes overlap nothing; the reported centre of an overlap lies in both volumes. A transformed box is the box around the images of its eight corners, and a sphere transformed by a rotation with scale encloses the images of its points. Containment of a point is exactly the coordinate-wise respectively distance condition.',
 ['inputs'],'all finite coordinates and matrices','Tests use fixed boxes and random points; ordering of min/max updates on new/invalid volumes not covered.',
 [FU+'FUBoundingBox.cpp',FU+'FUBoundingBox.h',FU+'FUBoundingSphere.cpp',FU+'FUBoundingSphere.h'],[('Include/Contains/Overlaps/Transform','FUBoundingBox.cpp')],['Contains after Include'])
p('C12','Sorting returns an ordered permutation',
 'Sorting an array with the library sort leaves an array that holds exactly the same elements with the same multiplicities and is in non-decreasing order of the comparison, for every length and content including duplicates. Elements outside the sorted range are untouched and no access leaves the range.',
 ['inputs'],'all arrays','Quick-sort edge cases depend on duplicates and length.',
 [FM+'FMSort.h'],[('QuickSort','FMSort.h')],['array after sort'])
p('C13','Ordered maps are mathematical finite maps',
 'After any sequence of insertions, index accesses, lookups and erasures an ordered map holds exactly the expected key-value pairs: lookup finds a key if and only if it is present and returns its latest value, size is the number of keys, and iteration visits every key exactly once in increasing order forwards and decreasing order backwards. The internal tree stays height-balanced with ordered keys and consistent parent links after every operation.',
 ['inputs','histories'],'all histories of operations and key orders','Rebalancing errors need specific shapes of insertions and removals.',
 [FM+'FMTree.h',FU+'FUUniqueStringMap.h'],[('AVL tree with rotations','FMTree.h')],['find/insert/erase/iteration'])
p('C14','Generated names are unique',
 'Inserting a name into a unique-name set leaves the caller with a name that was not in the set before, which equals the requested name when that was free, and which is in the set afterwards. Names already present stay present until erased, and erasing one name removes exactly that one. This holds for every history of insertions and erasures, including names that end in digits.',
 ['inputs','histories'],'all names and histories','Collisions depend on numeric suffix history.',
 [FU+'FUUniqueStringMap.h',FU+'FUUniqueStringMap.cpp',FC+'FCDObjectWithId.cpp'],[('insert with numeric suffix','FUUniqueStringMap.h')],['name after insert'])
p('C15','Text escaping for XML is reversible and produces only legal characters',
 'Text written as element content or as a file name is escaped so that every emitted character is legal there, every illegal character becomes a percent sign and two hexadecimal digits, and legal characters are emitted unchanged. For every text without a percent sign, reading the escaped text back yields the original text byte for byte. The reader never reads past the terminator, even for truncated escapes.',
 ['inputs'],'every byte string','Only few characters are sampled by documents in tests.',
 [FU+'FUXmlWriter.cpp',FU+'FUXmlParser.cpp'],[('AddContent, ConvertFilename, XmlToString','FUXmlWriter.cpp, FUXmlParser.cpp')],['escaped text'])
p('C16','Every enumerated keyword survives writing and reading',
 'For each COLLADA enumeration that has both a writer and a reader of keywords, reading the written keyword of any defined value gives back that value, and distinct values are written as distinct keywords. Reading any text that is no keyword of the enumeration gives its documented unknown/default value, and out-of-range values are written as the unknown keyword.',
 ['inputs'],'all enumeration values and all texts','Documents in tests use few of the keywords.',
 [FU+'FUDaeEnum.cpp',FU+'FUDaeEnum.h',FU+'FUDaeEnumSyntax.h'],[('FromString/ToString pairs','FUDaeEnum.cpp')],['returned values'])
p('C17','Relative and absolute URIs denote the same resource',
 'Parsing a URI splits it into scheme, host, port, path, query and fragment and printing it reassembles the same URI. Making a relative path absolute against a base applies the dot and dot-dot segments to the folder of the base, and making the absolute path relative again and resolving it gives back the same absolute path. Absolute paths and URIs on other hosts are left unchanged.',
 ['inputs'],'all well-formed file/http/https/ftp URIs and paths','Tests use some dozens of fixed paths.',
 [FU+'FUUri.cpp',FU+'FUUri.h'],[('FUUri parsing, MakeAbsolute, MakeRelative','FUUri.cpp')],['resolved paths'])
p('C18','Tracked pointers and ownership never dangle or leak',
 'When a tracked object is released, every tracking pointer and list that referred to it no longer refers to it, other references are unaffected, and each tracked object knows exactly its current trackers after any history of assignments. An object contained in an owning reference or container is released exactly once, when the container releases it, and leaves the container at the moment it is released by others.',
 ['histories'],'all histories of assign, copy, add, remove, release','Dangling trackers need particular orders of release.',
 [FU+'FUTracker.h',FU+'FUObject.h',FU+'FUObject.cpp'],[('FUTrackable/FUTracker/FUTrackedPtr/FUTrackedList/FUObjectRef/FUObjectContainer','FUTracker.h, FUObject.h')],['pointer values after release'])
p('C19','Events call each registered handler exactly once',
 'Triggering an event calls every handler registered at that moment and not released since, exactly once, in a fixed order, with the given arguments. Inserting adds exactly one handler, releasing an object removes exactly one of its handlers (the one registered first), releasing an unknown object changes nothing, and handlers that release themselves or later ones while the event runs cause no missed, doubled or invalid call.',
 ['histories'],'all histories of insert, release and trigger, including from inside handlers','Re-entrancy needs particular registrations.',
 [FU+'FUEvent.h'],[('FUEvent handler list','FUEvent.h')],['calls made'])
p('C20','Animation curves pass through their keys and respect their modes',
 'Keys added at a time are kept in time order and are returned at the reported index; deleting removes exactly that key. Evaluation at the time of a key of a curve with strictly increasing times gives exactly that key\'s value; between two keys it gives the step value, the straight line, or a value of the Bezier curve of those keys according to the earlier key\'s interpolation, and with no keys 0. Before the first and after the last key, constant, linear, cycle, relative-cycle and oscillate modes continue the curve as defined.',
 ['inputs'],'all key counts, key times/values and inputs (real arithmetic)','Tests sample two curves.',
 [FC+'FCDAnimationCurve.cpp',FC+'FCDAnimationKey.cpp'],[('AddKey ordered insert, Evaluate interval search','FCDAnimationCurve.cpp')],['Evaluate()'])
p('C21','Polygon-set bookkeeping is consistent',
 'For every polygon set, the vertex offset of a face is the sum of the vertex counts of all preceding faces and holes, the count of a face includes its holes, the total is the sum over all faces, and removing a face removes exactly its counts, its holes and its indices and keeps everything else. Triangulating keeps only triangles: each polygon of n>=3 vertices without holes becomes n-2 triangles over its own vertices in order, faces under three vertices and holes are dropped, with all inputs kept in step.',
 ['inputs','histories'],'all face counts, hole positions and input configurations','Tests use meshes without holes.',
 [FC+'FCDGeometryPolygons.cpp',FC+'FCDGeometryPolygonsTools.cpp'],[('GetFaceVertexOffset, GetHoleCountBefore, RemoveFace, Triangulate','FCDGeometryPolygons.cpp')],['face counts, offsets, indices'])
p('C22','Reducing skin influences keeps the strongest and the total weight',
 'After reducing, no vertex has more influences than the maximum and, where influences were dropped, the kept ones are the highest weighted ones not below the minimum weight, in decreasing order, with relative weights unchanged and total weight equal to the old total. Vertices that needed no reduction are unchanged, and vertices are independent of each other.',
 ['inputs'],'all weight lists, maxima and minima','Tests sample a few weight sets.',
 [FC+'FCDSkinController.cpp'],[('ReduceInfluences','FCDSkinController.cpp')],['influence pairs'])
p('C23','The scene graph is acyclic with matching parent and child links',
 'After any history of adding and removing child nodes, a node is listed as a child of another exactly when that one is listed as its parent, no node is its own ancestor, and no child is listed twice. An add that would violate this is refused and leaves the graph unchanged; an accepted add creates exactly that one link.',
 ['histories','inputs'],'all graphs, including nodes with several parents, and all histories','Cycles through several levels and instances are not tested.',
 [FC+'FCDSceneNode.cpp'],[('AddChildNode ancestor search','FCDSceneNode.cpp')],['GetParent/GetChild lists'])
p('C24','Object ids are legal and unique within a document',
 'Any text given as id or sub-id is turned into a legal identifier: same length (up to 512 characters), first character a letter or underscore, all others letters, digits, underscore, minus or, for ids, full stop, with already legal characters unchanged. Two live objects of a document never report the same id, whatever ids were requested, and cleaning a legal id changes nothing.',
 ['inputs','histories'],'every text','Only default ids are tested.',
 [FC+'FCDObjectWithId.cpp',FU+'FUUniqueStringMap.h'],[('CleanId, SetDaeId','FCDObjectWithId.cpp')],['GetDaeId()'])
p('C25','Scene transforms give their defining matrices and compose in order',
 'The matrix of a translation, rotation, scale, matrix, look-at and skew element is its defining matrix for all parameters (angles in degrees), and the matrix of a scene node is the product of its transform matrices in stack order; the world transform is the parent world transform times the local one. Look-at matrices place the position as origin with orthonormal right-handed axes, the third pointing from the target to the position and the second to the side of the up direction, whenever the up direction is not (nearly) the viewing direction.',
 ['inputs'],'all transform parameters and stacks (real arithmetic)','Tests compare few matrices.',
 [FC+'FCDTransform.cpp',FC+'FCDSceneNode.cpp',FM+'FMMatrix44.cpp'],[('FCDT*::ToMatrix','FCDTransform.cpp')],['ToMatrix()'])
p('C26','Dates survive writing and reading',
 'Writing any date-time with year 0-9999 and in-range fields as text and reading that text gives back the same date-time. The written text has the fixed ISO layout YYYY-MM-DDThh:mm:ssZ, and reading any text never reads past its terminator.',
 ['inputs'],'all in-range dates, all texts','Only the current time is used in tests.',
 [FU+'FUDateTime.cpp',FU+'FUStringConversion.cpp'],[('ToString(FUDateTime)/ToDateTime','FUStringConversion.cpp')],['parsed fields'])
p('C27','COLLADA versions are totally ordered',
 'Version comparison is the lexicographic order of major, minor and revision: exactly one of less, equal, greater holds for any two versions, it is transitive, and the derived comparisons agree with it. Parsing "a.b.c" gives those three numbers.',
 ['inputs'],'all versions','Tests contain no ordering case.',
 [FC+'FCDVersion.h',FC+'FCDVersion.cpp'],[('operator</==/ParseVersionNumbers','FCDVersion.h')],['comparison results'])
p('C28','Colour and scalar helpers stay in range and invert each other',
 'Converting a colour between packed 32-bit, byte-channel and real components (0 to 1) puts each channel in the right position, missing components take their defaults, and packed-to-real-to-packed is the identity for every channel value. Converting a colour with components in [0,1] to hue, saturation and value gives values in [0,1] and converting back gives the same colour, grey and black included. Clamping yields the nearest value of the range, wrapping re-enters the range, and sign, degree/radian conversion and approximate equality match their definitions.',
 ['inputs'],'all channel values and reals','Not covered by tests.',
 [FM+'FMColor.h',FM+'FMColor.cpp',FM+'FMath.h',FM+'FMVector4.h'],[('FMVector4 from/to packed','FMColor.cpp')],['components'])
p('C29','Animated list values follow their elements',
 'After inserting, erasing or resizing elements of an animatable list, each remaining value keeps its animation: the animations of later elements move by exactly the number of inserted or erased elements, animations of erased elements are removed, and values are those of the corresponding sequence operation. Asking for the animation of an element returns an animation bound to that element only.',
 ['inputs','histories'],'all lists, positions, counts and sets of animated elements','One test walks through a single history.',
 [FC+'FCDParameterAnimatable.hpp',FC+'FCDParameterAnimatable.h'],[('insert/erase with index shift, binary search of animated index','FCDParameterAnimatable.hpp')],['GetAnimated indices'])
p('C30','Exported documents re-import to an equal document',
 'Exporting any document and importing the written file gives a document equal in structure, values and references, for every supported element.',
 ['inputs','programs'],'all documents','Tests round trip one synthetic document.',
 ['FColladaPlugins/FArchiveXML/FArchiveXML.cpp','FColladaPlugins/FArchiveXML'],[('FArchiveXML write/load pairs','FColladaPlugins/FArchiveXML')],['re-imported document'])
p('C31','Malformed documents never crash the importer',
 'Importing any byte sequence either succeeds or reports errors; it never accesses memory out of bounds, loops forever or leaves dangling references.',
 ['inputs'],'all byte sequences as input files','Tests import well-formed samples only.',
 ['FColladaPlugins/FArchiveXML','FCollada/FCDocument/FCDocument.cpp'],[('libxml2 parse and FArchiveXML import','FColladaPlugins/FArchiveXML/FAXColladaParser.cpp')],['import result'])
p('C32','External references connect and disconnect with their documents',
 'Whatever the order in which documents that refer to each other are opened and closed, a reference resolves exactly while its target document is open and holds the target, and closing a document leaves no reference into it.',
 ['histories'],'all orders of opening/closing','Tests sample several orders.',
 [FC+'FCDExternalReferenceManager.cpp',FC+'FCDPlaceHolder.cpp',FC+'FCDEntityReference.cpp'],[('FCDPlaceHolder/FCDEntityReference tracking','FCDEntityReference.cpp')],['GetEntity()'])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
