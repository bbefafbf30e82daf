#!/opt/venv/bin/python
"""writes properties.jsonl"""
import json
from pathlib import Path

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    anchors = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        anchors['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        anchors['observe_at'] = list(observe)
    anchors['hook_needed'] = None
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': anchors})


IC3 = 'cfdtools/ic3/'
MB = 'cfdtools/meshbase/'

prop('C01', 'IC3 V2/V3 restart: write then read gives back every value',
     'Writing a mesh with its boundary zones, partition, step, time step, time, statistics weights and node and cell data'
     ' to an IC3 V2 or V3 binary restart and reading that file back gives the same mesh bit for bit: node coordinates, '
     'nodes and cells of each face, name, kind, face range, nodes and periodic transform of each zone, partition, parameters, and '
     'name, type and values of each scalar, vector and tensor.'
     ' This holds in native, little and big endian, with several degrees of freedom per cell and integer scalars in V3, '
     'and writing again what was read gives an identical file.',
     ['inputs', 'configurations'],
     'all face-based meshes (2, 3, 4-node faces), zones of all kinds, data arrays of rank 0-2 with any float64/int64 '
     'values, 3 byte orders, V2 and V3',
     'Tests write and re-read a couple of fixed cubes and mostly check that nothing raises; special values, mixed face '
     'types, degrees of freedom, endianness combinations and parameter values are not compared.',
     [IC3 + 'writerV2.py', IC3 + 'writerV3.py', IC3 + 'reader_legacy.py', IC3 + '_ic3.py'],
     [('section writers', IC3 + 'writerV2.py: __WriteRestartConnectivity, __WriteInformativeValues, __WriteRestartVar'),
      ('section readers', IC3 + 'reader_legacy.py: _ReadRestartConnectivity, _ReadInformativeValues, _ReadRestartVar')],
     ['reader(...).export_mesh()'])

prop('C02', 'IC3 V2/V3 restart files follow the documented binary layout',
     'Every restart written is a sequence of 256-byte section headers (zero padded name, code, skip, integer and real '
     'values) and payloads, starting with the magic number and version and ending with one end-of-file section, in which '
     'every count, size and skip is exact, so that an independent parser recovers exactly the content of the mesh.'
     ' The sections required by the solver all appear once, integrity sections list consecutive indices, zones cover '
     'consecutive face ranges followed by the internal faces, and each requested byte order is honoured for the whole file '
     'so that little and big endian files hold the same values.',
     ['inputs', 'configurations'],
     'all meshes and data as in C01, 3 byte orders, V2 and V3',
     'The library reads its own files with the same constants, so a symmetric mistake in writer and reader is invisible to '
     'round-trip tests; no test looks at the bytes.',
     [IC3 + 'writerV2.py', IC3 + 'writerV3.py', IC3 + '_ic3.py'],
     [('header packing', IC3 + '_ic3.py: restartSectionHeader.write, BinaryWrite, type2nbytes, ic3_restart_codes')],
     ['bytes of the file'])

prop('C03', 'IC3 V2/V3 reader does not depend on byte order or order of sections',
     'A restart file with valid content is read to the same mesh whatever its byte order, whether optional integrity '
     'sections are present or not, and wherever zones, partition, coordinates and data stand among the sections; names of sections end at their first null byte, and sections of other kinds are ignored.'
     ' When integrity checking is requested, files with right integrity sections are read to the same mesh and files '
     'where an integrity section lists anything but consecutive indices are rejected with an error. A file which does not '
     'start with the magic number, in one of the byte orders, is refused.',
     ['inputs', 'configurations'],
     'files made by an independent writer: both byte orders, random orders of the independent sections, with and without '
     'integrity sections, one altered integrity entry',
     'Tests only read files in the order and byte order the library itself writes on this machine and a few small samples '
     'with unchecked content.',
     [IC3 + 'reader_legacy.py', IC3 + '_ic3.py'],
     [('section lookup', IC3 + '_ic3.py: restartSectionHeader.readVar'),
      ('data location', IC3 + 'reader_legacy.py: _data_location, _ReadRestartVar')])

prop('C04', 'A truncated IC3 restart is never accepted as complete',
     'If a valid IC3 V2 or V3 restart is cut at any byte before its end, reading it ends in an error: no mesh or data is '
     'returned, and listing its sections ends in an error or reports less than the whole list, never the end-of-file section.'
     ' The complete file is read without error.',
     ['crash_points', 'fault_sequences'],
     'every prefix length of small restarts, and random prefixes of larger ones, both versions and byte orders',
     'No test reads a truncated file; there is one failure point per byte of the file.',
     [IC3 + '_ic3.py', IC3 + 'reader_legacy.py'],
     [('size check of each read', IC3 + '_ic3.py: BinaryRead'),
      ('end-of-file check', IC3 + 'reader_legacy.py: read_data, _ReadRestartVar')])

prop('C05', 'The IC3 brief lists each section of a restart once, in order, with its values',
     'For any valid restart, in either byte order and version, the brief listing shows every section exactly once in file '
     'order including the end-of-file section, with the name, numeric code, skip, integer values and real values stored in '
     'the header, whatever the payloads hold.'
     ' Listing never modifies the file.',
     ['inputs'],
     'files with random sections, names, payload sizes and contents (including payloads that look like headers)',
     'The only test checks that the command returns on two sample files.',
     [IC3 + '_ic3.py', 'cfdtools/_cli.py'],
     [('walk over headers', IC3 + '_ic3.py: binreader.read_headers, restartSectionHeader.__str__')],
     ['standard output'])

prop('C06', 'IC3 V4 (HDF5) files round trip and follow their documented content',
     'Writing a mesh to an IC3 V4 mesh file and a solution file gives HDF5 files whose attributes, coordinates, face and '
     'cell connectivities, sorted boundary labels, offsets and kinds, periodic transforms, conserved variables, statistics '
     'and weights hold exactly the content of the mesh.'
     ' Reading the pair of files gives back the same faces, zones and their nodes, step, time, weights and values; reading the mesh file '
     'alone gives the same mesh without solution.',
     ['inputs', 'configurations'],
     'all face-based meshes and zones, conserved variables and any set of statistics variables, any values',
     'Tests use one sample pair of files and check counts; values, several zones and face types are not compared.',
     [IC3 + 'writerV4.py', IC3 + 'readerV4.py'],
     [('writer', IC3 + 'writerV4.py: _write_connectivities, _write_boundaries, _write_solution_vars, _write_solution_stats'),
      ('reader', IC3 + 'readerV4.py: _read_connectivity, _read_informative_values, _read_variables')],
     ['datasets and attributes of the HDF5 files (with h5py)'])

prop('C07', 'Converting between IC3 versions keeps everything both versions can hold',
     'Reading a restart in one IC3 version (V2, V3, V4) and writing it in another one, through any chain of versions and '
     'byte orders, keeps coordinates, faces, cells of faces, zones, step and time, and the values of each variable that all '
     'versions of the chain can hold.',
     ['histories', 'inputs'],
     'chains of 2 to 4 conversions over random contents',
     'Tests convert single samples once and do not compare the contents.',
     [IC3 + 'writerV2.py', IC3 + 'writerV3.py', IC3 + 'writerV4.py', IC3 + 'readerV4.py', IC3 + 'reader_legacy.py'],
     [('readers produce the internal mesh used by all writers', IC3 + 'reader_legacy.py / readerV4.py: export_mesh')])

prop('C08', 'Face connectivity built from cells is exactly the faces of the cells',
     'For a conforming 2D or 3D mesh of any mix of cell types, in any numbering and with cells split in any groups, the '
     'generated faces are exactly the faces of the cells, each once: faces of two cells are internal and refer to both '
     'cells, faces of one cell are boundary faces referring to it.'
     ' In 3D the nodes of each face are ordered so that its normal points out of its first cell.',
     ['inputs'],
     'conforming meshes of hexahedra, prisms, pyramids, tetrahedra, quadrangles and triangles with holes, any numbering '
     'of nodes, cells and local nodes',
     'Tests check the number of faces of a few structured cubes and one prism; orientation, owners and mixed types are '
     'not looked at.',
     [MB + '_connectivity.py', MB + '_elements.py', MB + '_mesh.py'],
     [('matching of faces', MB + '_connectivity.py: elem_connectivity.create_faces_from_elems'),
      ('element faces', MB + '_elements.py: elem2faces'), ('split', MB + '_mesh.py: make_face_connectivity')])

prop('C09', 'Exporting a marked mesh assigns each boundary face to exactly one zone',
     'Exporting a cell-based mesh whose boundaries are marked by nodes gives a face-based restart where each mark becomes '
     'one zone with exactly the boundary faces whose nodes are all marked, remaining boundary faces form one extra zone, '
     'internal faces come last, zones are contiguous and cover all boundary faces once.'
     ' Faces keep their nodes, orientation and cells, coordinates are unchanged, and exporting the same mesh several times '
     'or in several formats gives the same result each time.',
     ['inputs', 'histories'],
     'conforming meshes with any disjoint marks, any sequence of exports to IC3 V2/V3/V4 and VTK',
     'Tests only count the zones of fixed meshes.',
     [MB + '_mesh.py', IC3 + 'writerV2.py', MB + '_connectivity.py'],
     [('node marks to face marks', MB + '_mesh.py: bocomarks_set_node_to_face, make_unmarked_BC'),
      ('reindexing', MB + '_mesh.py: reindex_boundaryfaces, export_mixedfaces')])

prop('C10', 'Extruding a 2D mesh gives the conforming 3D mesh of its layers',
     'Extruding a 2D mesh of triangles and quadrangles over n+1 positions gives n layers of prisms and hexahedra with '
     'positive volumes equal to area times layer thickness, nodes at each position, and 2D boundary marks extended over all '
     'positions; two extra marks hold the end planes. Extruded cells are numbered layer by layer, in the order of the source cells.'
     ' Faces of the extruded mesh, its export and the original 2D mesh are consistent: each lateral boundary face comes '
     'from one marked edge and the source mesh is not modified.',
     ['inputs'],
     '2D meshes of any mix and numbering, any increasing positions',
     'Tests extrude two fixed meshes and check counts.',
     [MB + '_mesh.py', MB + '_connectivity.py', MB + '_elements.py'],
     [('extrusion', MB + '_mesh.py: export_extruded'), ('connectivity', MB + '_connectivity.py: elem_connectivity.extrude')])

prop('C11', 'Scaling and morphing a mesh only changes its coordinates',
     'Scaling a mesh multiplies each coordinate by its factor and morphing applies the given function to the coordinates, '
     'in every node and whatever the way coordinates were given; cells, faces, marks, data and parameters are unchanged.'
     ' A scaled or morphed mesh is exported with the transformed coordinates, successive transformations compose, and '
     'removing data removes exactly the named variable.',
     ['inputs', 'histories'],
     'sequences of scale, morph and data removal on generated meshes, coordinates given as lists or arrays',
     'Tests check one coordinate after one scaling or morphing.',
     [MB + '_mesh.py'],
     [('transformations', MB + '_mesh.py: scale, morph, set_nodescoord_xyz, set_nodescoord_nd'),
      ('removal', MB + '_mesh.py: pop_celldata, pop_nodedata')])

prop('C12', 'Connectivity containers keep every element, index and connection',
     'After any sequence of operations, an element connectivity holds exactly the elements added with their type and global '
     'index, index lists and ranges are interchangeable (same size, content, shift and concatenation, compression without '
     'loss) and face to cell tables hold the rows appended to them in order.'
     ' Exporting to the compressed (index, value) form and importing back, merging by types, selecting elements by nodes '
     'and lists of indices give what a plain list of elements gives.',
     ['histories', 'inputs'],
     'random sequences of container operations against a plain Python model',
     'Tests run a fixed script for each class.',
     [MB + '_connectivity.py'],
     [('containers', MB + '_connectivity.py: indexlist, indexindirection, compressed_listofindex, elem_connectivity')])

prop('C13', 'The cube generator makes the exact structured mesh of unit cells',
     'For all numbers of cells the generated cube has the right numbers of nodes and cells on a uniform grid of the unit '
     'cube, hexahedra of equal positive volumes filling it without overlap, and six marks holding exactly the nodes of '
     'the six sides.'
     ' Its exports to all formats contain that same mesh, with six zones of the expected faces.',
     ['inputs', 'configurations'],
     'all sizes (nx, ny, nz) from 1 to a bound, all export formats',
     'Tests use one or two sizes, often equal in all directions, and check counts.',
     [MB + 'simple.py', 'cfdtools/_cli.py'],
     [('generator', MB + 'simple.py: Cube.export_mesh')])

prop('C14', 'GMSH 2.x meshes are imported exactly, whatever numbering and order',
     'Reading an ASCII GMSH 2 file gives the mesh it describes: nodes identified by their tags with exact coordinates, each '
     'cell of the highest dimension once with its type and nodes, and one boundary mark per named physical group of the '
     'dimension below with exactly its nodes and name.'
     ' Node tags may be sparse or unsorted, elements may be in any order and types may be mixed.',
     ['inputs'],
     'generated 2D and 3D meshes written by an independent GMSH writer, any tags, order, names and groups',
     'Tests read a few sample files and check counts or nothing.',
     ['cfdtools/gmsh/reader.py', 'cfdtools/gmsh/_gmsh.py'],
     [('sections', 'cfdtools/gmsh/reader.py: read_data'), ('element types', 'cfdtools/gmsh/_gmsh.py')])

prop('C15', 'GMSH 4.1 and GMSH 2 files of the same mesh are imported alike',
     'Reading an ASCII GMSH 4.1 file gives the mesh it describes, the same as the GMSH 2 file of that mesh: same nodes, '
     'cells, and boundary marks with their names, whatever the split in entity blocks, the entity numbering per '
     'dimension, the tags of nodes and the presence of other sections.',
     ['inputs'],
     'generated meshes split in random entities and blocks, written in both formats by independent writers',
     'Tests read a few samples and check counts.',
     ['cfdtools/gmsh/reader.py'],
     [('version 4 parsing', 'cfdtools/gmsh/reader.py')])

prop('C16', 'CGNS unstructured zones are imported exactly',
     'Reading a CGNS/HDF5 file with one unstructured zone (linear triangles, quadrangles, hexahedra), or a zone of a file with '
     'several ones given by its name, gives its coordinates '
     'exactly, all cells of all sections of the dimension of the base with their nodes, those of a type in the order of element '
     'numbers, and one mark per boundary condition '
     '(grouped by family name) holding exactly its nodes, whatever the order and ranges of the element sections and with lists '
     'of vertices or of faces.',
     ['inputs'],
     'generated files with sections in any order, several sections per type, families, lists of vertices and of faces',
     'Tests read one sample and check counts.',
     ['cfdtools/cgns/cgns.py'],
     [('reader', 'cfdtools/cgns/cgns.py: cgnsMesh / cgnszone / cgnstree')])

prop('C17', 'VTK export and import keep the mesh',
     'Exporting a mesh to a VTU file gives a file where nodes, cell types and cell nodes are those of the mesh, with the cells of each type in the order of the mesh; '
     'reading a VTK file gives back the same coordinates, cells and boundary of the grid, and exporting '
     'it again gives an equivalent grid with the same volumes.',
     ['inputs'],
     'generated 2D and 3D meshes of all cell types, in any numbering, checked with VTK itself',
     'Tests only check that writing a cube does not fail.',
     ['cfdtools/vtk/_vtk.py'],
     [('conversion', 'cfdtools/vtk/_vtk.py: vtkMesh.set_mesh, export_mesh, write_data')])

prop('C18', 'Packing a series of VTK files puts all data in the order of the first grid',
     'Packing files that hold the same grid with nodes and cells numbered differently gives one mesh and, for each file in '
     'the order of the list, each cell variable ordered as the cells of that mesh, with its time; variables of '
     'any number of components keep their values.'
     ' A file whose cells are not those of the first file is rejected, and filters keep exactly the requested variables.',
     ['inputs', 'histories'],
     'series of 1 to 4 files of the same grid with random permutations of nodes and cells, mixed types, scalar and '
     'vector data',
     'Tests pack two or three samples of the same numbering and check that keys exist.',
     ['cfdtools/vtk/_vtkList.py', 'cfdtools/vtk/_vtk.py', 'cfdtools/data.py'],
     [('reordering', 'cfdtools/vtk/_vtkList.py: vtkList.read')])

prop('C19', 'HDF5 dumps of meshes and series are read back identical, with a consistent XDMF',
     'A mesh or series dumped to HDF5 and imported back gives the same nodes, cells per type, variables, order and times. '
     'The XDMF file written along with it references existing datasets of the dump with right shapes, sizes, topology and '
     'attribute centres for each time step, so that XDMF readers find the cells and data of a grid of one cell type.',
     ['inputs'],
     'generated grids of all types and data series',
     'Tests check that files are written and that some keys are present.',
     ['cfdtools/vtk/_vtk.py', 'cfdtools/vtk/_vtkList.py', 'cfdtools/data.py', 'cfdtools/hdf5/_hdf5.py'],
     [('dump', 'cfdtools/vtk/_vtk.py: dumphdf, importhdfgroup, xdmf_content; cfdtools/data.py: DataSetList.dumphdf')])

prop('C20', 'The z-convolution of extruded data gives the exact statistics of each column',
     'For data on an extruded grid the convolution along z gives, in each cell of one plane, the average, the root mean '
     'square of fluctuations, the modulus and phase of each requested Fourier mode, and the first plane as snapshot, '
     'equal to those computed column by column, whatever the numbering of cells in each plane.'
     ' Options and per-variable selections choose exactly which results are present, and grids which are not extruded are refused.',
     ['inputs', 'configurations'],
     'extruded grids with shuffled cells, random data, numbers of modes and selections',
     'Tests check one grid with one analytic field and few options.',
     ['cfdtools/vtk/_vtk.py'],
     [('convolution', 'cfdtools/vtk/_vtk.py: vtk_zconvolution')])

prop('C21', 'Extracting cells keeps exactly the selected cells, and volumes are exact',
     'Extracting cells by a list or array of indices gives a grid made of exactly these cells in that order, with '
     'their type and geometry. The volumes of cells computed for a grid are the exact volumes of its cells, in cell '
     'order, each time they are asked for.',
     ['inputs', 'histories'],
     'generated grids, random selections, repeated requests',
     'Tests check one total volume and a number of cells.',
     ['cfdtools/vtk/_vtk.py'],
     [('extraction', 'cfdtools/vtk/_vtk.py: vtk_extract_cells'), ('volumes', 'cfdtools/vtk/_vtk.py: volumes')])

prop('C22', 'Spectra and spectrograms are those of the selected samples and variables',
     'The spectrum of a time series gives for each requested variable the discrete Fourier transform of exactly the '
     'selected range of samples at the right frequencies; the spectrogram gives for each half-overlapping window its '
     'windowed spectrum at the right times and frequencies.'
     ' The source data, their time and the filter are not modified, and variables which are not selected do not appear.',
     ['inputs'],
     'random series of 1 to several points, all ranges and window sizes, filters',
     'Tests run one signal and check shapes.',
     ['cfdtools/data.py'],
     [('spectra', 'cfdtools/data.py: DataSet.dataSet_spectrum, dataSet_spectrogram')])

prop('C23', 'Polynomial bases interpolate and differentiate polynomials exactly',
     'For each order and family of basis, the weights returned for any point interpolate, and differentiate, exactly (to '
     'rounding) every polynomial of degree lower than the order from its values at the Gauss points, so that interpolation '
     'weights sum to one, derivative weights to zero, and both families give the same weights.',
     ['inputs'],
     'orders 1 to 12, both families, random polynomials, points in and slightly out of [-1,1]',
     'Tests check sums of weights for a few points.',
     ['cfdtools/utils/polybase.py'],
     [('weights', 'cfdtools/utils/polybase.py: poly1d')])

prop('C24', 'IC3 probe files are read, derived and mapped without mixing values',
     'For a set of probe files each variable is read with its time, iteration and values per probe as in the file, '
     'coordinates are those of the probes, and derived quantities (speed, Mach number, speed of sound, entropy, invariants) '
     'equal their formula applied at each probe and time.'
     ' Time and frequency maps plot the requested variable against the requested axis and time or frequency.',
     ['inputs'],
     'random probe files, names of variables and prefixes, numbers of probes and samples',
     'Tests plot one sample file and check nothing about values.',
     ['cfdtools/probes/data.py', 'cfdtools/probes/plot.py', 'cfdtools/_cli.py'],
     [('reading and formulas', 'cfdtools/probes/data.py: phydata'), ('maps', 'cfdtools/probes/plot.py')])

prop('C25', 'Conversions and packings never modify existing files, inputs included',
     'Whatever files already exist in the output folder, a conversion or packing tool writes to a new file whose name was '
     'free, with the expected extension and folder, returns that name, and leaves every existing file, its input '
     'included, byte for byte unchanged.',
     ['histories', 'configurations'],
     'sequences of conversions with pre-existing files of colliding names, names with dots, spaces and parentheses, '
     'folders',
     'One test checks one collision.',
     ['cfdtools/api.py', 'cfdtools/_cli.py', 'cfdtools/hdf5/_hdf5.py', 'cfdtools/vtk/_vtkList.py'],
     [('free name', 'cfdtools/api.py: _files.find_safe_newfile'), ('conversion', 'cfdtools/_cli.py: write_generic')])

prop('C26', 'Conversion tools do what the library does, with their options applied',
     'Converting a file with a command line tool chooses the reader by extension or explicit format, and writes the same '
     'content as reading, transforming and writing with the library: named node or cell data removed and no other, extruded '
     'over the requested number of planes, coordinates scaled by the three factors. Sizes and bounds printed by --info are those of '
     'the mesh written.',
     ['inputs', 'configurations'],
     'generated IC3, GMSH and CGNS inputs, all tools, all combinations of options',
     'Tests run each tool once and check that a file appears.',
     ['cfdtools/_cli.py', 'cfdtools/api.py'],
     [('conversion', 'cfdtools/_cli.py: write_generic'), ('format map', 'cfdtools/api.py: fileformat_reader/writer')])

prop('C27', 'Timers and memoised functions behave as their simple models',
     'After any sequence of start, pause, stop and reset, a timer reports exactly the time spent running since its last '
     'stop or reset, and misuse (starting a running timer, pausing or stopping an idle one) raises its error without '
     'changing the time. A memoised function returns for any sequence of calls what the function returns, calls it once per '
     'distinct arguments and counts hits and misses, and a lazy property is computed once per object.',
     ['histories'],
     'random sequences of operations with measured bounds of time; random call sequences',
     'Tests run one or two fixed sequences with the real clock.',
     ['cfdtools/api.py'],
     [('timer', 'cfdtools/api.py: Timer'), ('memoize', 'cfdtools/api.py: memoize; cfdtools/utils/_dev.py: lazyprop')])

prop('C28', 'HDF5 containers keep their type, version and attributes',
     'A container written with a data type and version is reopened with that type, version and content, opening for '
     'reading or updating never loses or changes anything, and a file without header is reported as untyped.'
     ' Unknown types, unknown modes and writing a container without version are refused with an error, and exclusive '
     'creation never replaces an existing file.',
     ['histories', 'inputs'],
     'random sequences of openings in all modes with all types, versions and contents',
     'Tests open one file in two modes.',
     ['cfdtools/hdf5/_hdf5.py'],
     [('header', 'cfdtools/hdf5/_hdf5.py: h5File.open')])

prop('C29', 'Information tools report the content of files and meshes exactly',
     'For any readable file or mesh, the information printed (cfdinfo, vtkbrief, --info of conversions, printinfo of meshes and of IC3 '
     'readers) gives the exact numbers of nodes, cells and faces by type, bounds and average of coordinates, names and index ranges '
     'of boundary marks and names of data of that file or transformed mesh, and IC3 readers give the range of each variable (each '
     'component of a vector). Printing information modifies neither the mesh nor any file.',
     ['inputs'],
     'generated files of all formats and meshes with data, marks and faces; the printed lines are parsed',
     'Tests run the tools on a few files and ignore what they print.',
     ['cfdtools/_cli.py', 'cfdtools/meshbase/_mesh.py', 'cfdtools/vtk/_vtk.py', 'cfdtools/ic3/reader_legacy.py'],
     [('tools', 'cfdtools/_cli.py: cfdinfo / vtkbrief / write_generic'), ('mesh', 'cfdtools/meshbase/_mesh.py: Mesh.printinfo'),
      ('brief', 'cfdtools/vtk/_vtk.py: vtkMesh.brief'), ('reader', 'cfdtools/ic3/reader_legacy.py: reader.printinfo')])

prop('C30', 'Checks accept consistent meshes only, and inconsistent ones are not exported',
     'The check of a mesh succeeds exactly when it has nodes and cells, its cell count is that of its connectivity and each boundary '
     'face is in a mark; the check of an element connectivity succeeds exactly when its indices are 0 to n-1 each once, and that '
     'of a compressed table when it starts at 0 and ends at its number of values. Giving a mesh coordinates whose number, on any axis, is not its number of nodes is refused. Exporting to IC3 a mesh with a boundary face in '
     'two marks or listed twice, a mark of missing faces, or a number of coordinates or a size of data which does not fit ends in '
     'an error and leaves no file that can be read.',
     ['inputs', 'fault_sequences'],
     'random meshes, marks and tables with one injected inconsistency, or none',
     'Tests check a few consistent meshes only.',
     ['cfdtools/meshbase/_mesh.py', 'cfdtools/meshbase/_connectivity.py', 'cfdtools/ic3/writerV2.py'],
     [('check', 'cfdtools/meshbase/_mesh.py: Mesh.check / make_unmarked_BC'),
      ('tables', 'cfdtools/meshbase/_connectivity.py: elem_connectivity.check / compressed_listofindex.check'),
      ('marks', 'cfdtools/meshbase/_mesh.py: Mesh.reindex_boundaryfaces')])

if __name__ == '__main__':
    out = Path(__file__).resolve().parent.parent / 'properties.jsonl'
    out.write_text(''.join(json.dumps(p) + '\n' for p in P))
    for p in P:
        assert len(p['title']) <= 80, p['title']
        n = p['statement'].count('. ') + 1
        assert n <= 3, (p['id'], n)
    print(len(P), 'properties')
