import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=hook)))
p("P01","Dimension labels are interned consistently, also from many threads",
"A dimension label created from a string always compares equal to every other label created from the same string, never equal to a label from a different string, and reports back exactly that string as its name. This holds for predefined and custom labels and no matter how many threads create the same or different labels at the same time.",
["schedules","histories"],"every interleaving of label creation and name lookup by several threads over equal and distinct new/old names",
"The existing tests create labels from a single thread; whether two threads racing on the same new label obtain one id depends on the schedule.",
["lib/units/dim.cpp","lib/units/include/scipp/units/dim.h"],
[("reader/writer-locked registry: look up under shared lock, insert under exclusive lock","lib/units/dim.cpp Dim::Dim(const std::string&)"),("name lookup under shared lock","lib/units/dim.cpp Dim::name")],
[("custom_ids","map label -> id, shared by all threads","lib/units/dim.cpp")],
["Dim::Dim(std::string)","Dim::name()","Dim::id()","operator==","operator<"])
p("P02","Iterating strided, transposed, broadcast or binned arrays visits the right cells",
"Iterating over one or several operands of an operation visits, for every output element in row-major order of the iteration shape, exactly the memory location of the matching element of each operand, for any combination of dimension order, broadcasting, stride (including negative and zero), offset and bin structure. Jumping to any position gives the same locations as stepping there, so splitting a range into arbitrary chunks visits every element exactly once. Any shape with more dimensions than supported is refused.",
["inputs","histories"],"all iteration shapes (0 to 6 dims, any extent including 0 and 1), any strides, any bin index layout, and any sequence of increment / jump / end-jump calls",
"Tests use a handful of fixed shapes; the space of dimension orders x strides x bin layouts x jump targets is combinatorial.",
["lib/core/include/scipp/core/multi_index.h","lib/core/include/scipp/core/view_index.h","lib/core/multi_index.cpp","lib/core/view_index.cpp","lib/core/element_array_view.cpp","lib/core/include/scipp/core/element_array_view.h","lib/core/include/scipp/core/strides.h","lib/core/strides.cpp"],
[("flatten contiguous dims then odometer increment","lib/core/view_index.cpp, multi_index.cpp"),("set_index / set_to_end","lib/core/include/scipp/core/multi_index.h"),("bin chunk loading and skipping of empty bins","lib/core/include/scipp/core/multi_index.h")],
[("m_data_index","current memory index per operand","lib/core/include/scipp/core/multi_index.h")],
["MultiIndex","ViewIndex","ElementArrayView iterators and operator[]"])
p("P03","Dimension algebra: labelled shapes stay valid and operations obey their laws",
"A labelled shape never holds a duplicate label or a negative extent, keeps the order in which labels were added, and every operation on it (add inner/outer, resize, erase, rename, slice, transpose, fold, merge, intersect, concatenate) produces the shape defined by the operation or is refused with an error that leaves the shape unchanged. A slice is accepted only if it lies within the extent, a merge is accepted only if common extents agree, and edge detection recognises exactly one extra element along the asked dimension.",
["inputs","histories"],"all operation sequences on shapes with up to 6 labels and any extents",
"Tests check single operations on fixed shapes, not sequences, refused operations or all label permutations.",
["lib/core/sizes.cpp","lib/core/dimensions.cpp","lib/core/slice.cpp","lib/core/strides.cpp","lib/core/include/scipp/core/sizes.h","lib/core/include/scipp/core/dimensions.h","lib/core/include/scipp/core/slice.h","lib/common/include/scipp/common/index_composition.h"],
[("small_stable_map and expectation checks","lib/core/sizes.cpp"),("argument validation","lib/core/slice.cpp"),("merge/intersection/transpose/fold","lib/core/dimensions.cpp")],
[("m_keys/m_values","ordered labels with extents","lib/core/include/scipp/core/sizes.h")],
["Dimensions","Sizes","Slice","Strides","flat_index_from_strides/extract_indices"])
p("P04","Insertion-ordered dict behaves as an ordered map and detects stale iterators",
"The dictionary used for coords, masks and dataset items always iterates in first-insertion order with each key once, replacing a value keeps its position, erasing or extracting removes exactly that key and preserves the order of the rest, and looking up a missing key is reported. Using an iterator after the dictionary changed size raises an error instead of reading invalid memory, and iterators over keys, values and items agree with each other.",
["histories"],"all sequences of insert, replace, erase, extract, lookup, clear, copy and iterate, with iterators held across modifications",
"Tests use short fixed sequences; order preservation and invalidation depend on the whole history.",
["lib/core/include/scipp/core/dict.h"],
[("parallel key and value vectors","lib/core/include/scipp/core/dict.h Dict"),("iterator validity check against container address and size","lib/core/include/scipp/core/dict.h ValueIterator/KeyIterator")],
[("m_keys, m_values","entries in insertion order","lib/core/include/scipp/core/dict.h")],
["Dict public interface"])
p("P05","Element arrays are deep values: copies never alias and keep contents",
"The low-level array that stores elements behaves as a value: a copy or assignment has equal length and contents and later changes to one never show in the other, a moved-from or reset array is empty, and resizing or constructing from a range or initializer gives exactly the stated length and elements. This holds for any element type and any sequence of constructions, assignments (including self-assignment), moves and resizes.",
["histories","inputs"],"all sequences of construct/copy/move/assign/resize/reset on several arrays, including self-assignment, empty and null arrays and lengths around the parallel-initialisation thresholds",
"Tests perform each operation once on one array of fixed length.",
["lib/core/include/scipp/core/element_array.h"],
[("owning pointer + size, parallel copy","lib/core/include/scipp/core/element_array.h")],
[("m_size,m_data","length (-1 when null) and buffer","lib/core/include/scipp/core/element_array.h")],
["element_array public interface"])
p("P06","Uncertainties propagate by first-order Gaussian rules; integer maths is exact",
"Arithmetic on values with variances gives the plain result for the value and the first-order uncorrelated propagation for the variance, for every operator and every mix of uncertain and exact operands, with mutating and non-mutating forms agreeing. Integer floor-division and modulo satisfy a = (a // b)*b + a % b with the remainder taking the divisor's sign, integer powers equal repeated multiplication, and the evenly-spaced and consecutive-integer tests accept exactly the sequences that are.",
["inputs"],"all operand values, exact and uncertain, over the supported integer and floating types, including negative, zero and NaN operands",
"Tests check selected values; sign combinations, mixed operands and in-place variants are not enumerated.",
["lib/core/include/scipp/core/value_and_variance.h","lib/common/include/scipp/common/numeric.h","lib/core/include/scipp/core/element/arithmetic.h","lib/core/include/scipp/core/element/math.h","lib/core/include/scipp/core/time_point.h","lib/core/include/scipp/core/histogram.h"],
[("ValueAndVariance operators","lib/core/include/scipp/core/value_and_variance.h"),("integer_pow, islinspace, isarange","lib/common/include/scipp/common/numeric.h"),("floor_divide / mod element kernels","lib/core/include/scipp/core/element/arithmetic.h")],
(),["ValueAndVariance operators","numeric::pow/islinspace/isarange","element::floor_divide, element::mod, time_point arithmetic"])
p("P07","Spatial transforms compose, invert and apply consistently",
"Composing rotations, translations, affine maps and matrices gives a transform whose action on any vector equals applying the parts one after the other, in the stated order. Inverting undoes the action, and equality of transforms agrees with equality of their parts.",
["programs","inputs"],"all products of rotations, translations, scalings and affine maps, applied to any vector",
"Tests multiply a few fixed transforms; the product table of four kinds of operands in both orders and chains of products are not enumerated.",
["lib/core/include/scipp/core/spatial_transforms.h","lib/core/include/scipp/core/eigen.h"],
[("operator overloads for Quaternion/Translation/Affine","lib/core/include/scipp/core/spatial_transforms.h")],
(),["operator*","Quaternion/Translation apply, inverse, ==, indexing"])
p("P08","Units: algebra is a commutative group and mismatches are always refused",
"Multiplying, dividing and raising units follows the exponent laws, adding or comparing quantities requires identical units, and 'no unit' is distinct from dimensionless and only combines with 'no unit'. Any unit operation that has no valid result raises an error instead of returning a wrong unit, and in-place unit operations that fail leave the unit unchanged.",
["inputs","programs"],"all expressions over base, derived and missing units with small exponents",
"Tests compare selected unit pairs; the laws quantify over all expressions.",
["lib/units/unit.cpp","lib/units/include/scipp/units/unit.h"],
[("optional precise unit; explicit checks for mismatch and overflow","lib/units/unit.cpp")],
(),["Unit operators, pow, sqrt, comparison"])
p("P09","Views share data with their owner exactly where they should, and read-only holds",
"Slices, transposes, folds, renames and broadcasts of a variable read the owner's current elements at the mathematically corresponding positions, and a write through a view changes exactly those owner elements and nothing else, however views are chained. Writing through a read-only view or a broadcast (including setting unit or variances through a partial view) is refused without any effect, and a copy never shares data with its source.",
["histories","programs"],"all histories of creating chained views, copies and assignments and writing through any of the live handles",
"Tests look at one view at a time; aliasing errors appear only for particular chains (e.g. broadcast of a slice of a transpose) and later writes.",
["lib/variable/variable.cpp","lib/variable/include/scipp/variable/variable.h","lib/variable/include/scipp/variable/element_array_model.h","lib/variable/include/scipp/variable/element_array_variable.tcc","lib/variable/shape.cpp"],
[("shared data handle with offset/strides","lib/variable/variable.cpp"),("expect_writable / is_slice checks","lib/variable/variable.cpp")],
[("m_object,m_offset,m_strides,m_dims,m_readonly","shared buffer and view description","lib/variable/include/scipp/variable/variable.h")],
["Variable public interface"])
p("P10","Element-wise operations broadcast by label, tolerate aliasing, fail atomically",
"An element-wise operation on variables produces an output over the union of the operands' dimensions whose element at each label position is the operation applied to the operands at that position, independent of memory layout, operand sharing and thread chunking; in-place forms give the same result as computing first and then assigning, even if the operands overlap in memory. An operation that is refused (shape, unit, dtype, read-only, or broadcasting of variances) leaves all operands unchanged.",
["inputs","programs","schedules"],"all operand layouts and shapes including overlapping views of one buffer, with and without variances, and sizes on both sides of the threading threshold",
"Tests cover selected layouts; overlap patterns and refused operations after partial work are not enumerated.",
["lib/variable/include/scipp/variable/transform.h","lib/variable/arithmetic.cpp","lib/core/element_array_view.cpp","lib/core/dimensions.cpp"],
[("iteration over merged dims","lib/variable/include/scipp/variable/transform.h"),("overlap detection forces a copy","lib/core/element_array_view.cpp overlaps"),("dry run of unit and variance checks before writing","lib/variable/include/scipp/variable/transform.h")],
(),["Variable operators, transform, transform_in_place"])
p("P11","Reductions and scans equal the sequential definition for any layout or threads",
"Sum, mean, min, max, all, any and their NaN-ignoring forms equal the sequential fold of the elements along the reduced dimension (or all dimensions, or the events in each bin), with variances added, masked elements contributing the neutral element, and empty input giving the neutral element. Cumulative sums satisfy their recurrence, and results do not depend on memory layout, dimension order, or how the work is split among threads.",
["inputs","schedules"],"all shapes, dimension orders and lengths on both sides of the parallel thresholds, all reduction dimensions, all mask patterns",
"Tests use small arrays which take the sequential path; chunked paths depend on size, layout and thread count.",
["lib/variable/include/scipp/variable/accumulate.h","lib/variable/reduction.cpp","lib/variable/cumulative.cpp","lib/dataset/variable_reduction.cpp","lib/core/include/scipp/core/element/arithmetic.h"],
[("chunked accumulate with neutral initial value","lib/variable/include/scipp/variable/accumulate.h"),("mask replacement by neutral element","lib/dataset/variable_reduction.cpp")],
(),["sum/nansum/mean/nanmean/min/max/nanmin/nanmax/all/any/cumsum, bins_* forms"])
p("P12","Shape operations rearrange without losing, duplicating or reordering elements",
"Concatenating and slicing back, folding and flattening, transposing and transposing back, and squeezing recover the original variable or data array, including coords, masks and bin-edge coords; the result of each operation holds exactly the input elements at the positions the operation defines. Operations whose preconditions fail are refused (non-contiguous flatten, size mismatch, squeezing a long dimension, mixing edges and non-edges).",
["inputs","programs"],"all shapes and dimension orders up to rank 4, dense and binned, with edge and non-edge coords along any dimension",
"Tests check fixed examples; the round-trip laws quantify over all shapes and layouts.",
["lib/variable/shape.cpp","lib/dataset/shape.cpp","lib/variable/variable.cpp"],
[("strided views for fold/flatten/transpose, copy if not representable","lib/variable/shape.cpp"),("edge handling in concat/fold/flatten","lib/dataset/shape.cpp")],
(),["concat, fold, flatten, transpose, squeeze for Variable and DataArray"])
p("P13","Data arrays and datasets never hold metadata that does not fit their data",
"At every point of any history of inserting, replacing, erasing, renaming, slicing and copying, each coord and mask of a data array or dataset fits the data shape (at most one extra element along one dimension as bin edge), all items of a dataset have the dataset's shape, and items share the dataset's coords. A refused insertion, rename or replacement leaves the object unchanged, and metadata of a slice or coords reached through a dataset item cannot be inserted, erased or replaced.",
["histories"],"all histories of metadata and item operations on data arrays and datasets, including refused ones",
"Tests check individual operations on fresh objects; invariants over histories (rename after slice after insert) are not covered.",
["lib/dataset/sized_dict.cpp","lib/dataset/data_array.cpp","lib/dataset/dataset.cpp","lib/dataset/include/scipp/dataset/sized_dict.h","lib/dataset/include/scipp/dataset/dataset.h"],
[("size check in dict set","lib/dataset/sized_dict.cpp SizedDict::set"),("item dims check","lib/dataset/dataset.cpp expect_matching_item_dims"),("read-only flags","lib/dataset/sized_dict.cpp, data_array.cpp, dataset.cpp")],
[("m_sizes,m_items,m_readonly","shape, entries and write protection of a metadata dict","lib/dataset/include/scipp/dataset/sized_dict.h")],
["DataArray, Dataset, Coords, Masks public interface"])
p("P14","Slicing selects exactly the requested range, by position and by label",
"Positional slicing (point, range, stride) of data arrays and datasets selects exactly the requested elements of the data and of every coord and mask that depends on the dimension, keeps one more edge than data for bin-edge coords, marks coords as unaligned exactly when a point slice removes their dimension, and keeps the rest unchanged. Label-based slicing selects exactly the half-open label range (or unique point, or enclosing bin) for ascending and descending coords and refuses ambiguous, unsorted or mismatched-unit requests.",
["inputs"],"all coords (ascending, descending, duplicates, edges or points, length 0 and 1), all label values incl. outside and on boundaries, all positional ranges",
"Tests use a few coords; boundary combinations of order x edges x open/closed ends are not enumerated.",
["lib/variable/slice.cpp","lib/dataset/slice.cpp","lib/dataset/sized_dict.cpp","lib/dataset/data_array.cpp","lib/dataset/dataset.cpp"],
[("index from counting smaller/greater labels","lib/variable/slice.cpp"),("slice_map with edge handling","lib/dataset/include/scipp/dataset/sized_dict.h")],
(),["slice, DataArray::slice, Dataset::slice, get_slice_params"])
p("P15","Arithmetic between labelled arrays checks coords, merges masks, and is atomic",
"Binary operations on data arrays and datasets succeed only if all coords that are aligned in both operands match, the result carries the union of aligned coords with aligned taking precedence, and its masks are the element-wise OR of the operands' masks. In-place operations never change coords, and a refused in-place operation on a data array or dataset leaves every item, including data and masks, unchanged.",
["inputs","histories"],"all combinations of aligned/unaligned/missing/mismatching coords and masks, in both operands, for data arrays, datasets and slices of them",
"Tests sample coordinate combinations; atomicity after failure part-way through the items is only tested for one kind of failure.",
["lib/dataset/arithmetic.cpp","lib/dataset/dataset.cpp","lib/dataset/sized_dict.cpp","lib/dataset/except.cpp","lib/templates"],
[("coords_are_superset / union_ / union_or_in_place","lib/dataset/except.cpp, sized_dict.cpp, dataset.cpp"),("dry run over all items before applying","lib/dataset/arithmetic.cpp apply, apply_with_delay")],
(),["operators on DataArray and Dataset"])
p("P16","Binning and grouping put every selected event in exactly the right bin, once",
"Binning, grouping and re-binning of events assigns each unmasked event whose coordinate lies in a bin (left-closed, right-open) or equals a group label to exactly that output bin, drops all others, and neither loses, duplicates nor alters any event or its coords, variances and masks; the order of events within an output bin follows input order. Binning an already binned array, along the same or new dimensions or while erasing dimensions, gives the same event content as binning the raw events directly.",
["inputs","programs"],"all event tables, edge/group choices (sorted, uniform and non-uniform, integer and float), prior binnings, masks, erased dimensions and bin counts on both sides of the two-stage threshold",
"Tests check fixed tables; conservation over chained (re)binnings and special paths (sub-bin, two-stage, contiguous groups) needs exploration of many layouts.",
["lib/dataset/bin.cpp","lib/dataset/bin_detail.cpp","lib/core/include/scipp/core/element/bin.h","lib/core/include/scipp/core/element/bin_detail.h","lib/core/subbin_sizes.cpp","lib/dataset/bin_common.h","lib/variable/bin_detail.cpp"],
[("target bin index per event, counts, offsets, scatter","lib/dataset/bin.cpp"),("SubbinSizes sparse counts","lib/core/subbin_sizes.cpp")],
[("SubbinSizes","offset and sizes of output subbins per input bin","lib/core/include/scipp/core/subbin_sizes.h")],
["bin()","SubbinSizes"])
p("P17","Binned variables: bins address exactly their events through every operation",
"A binned variable is accepted only if its bin ranges are ordered, within the buffer and non-overlapping; copying, slicing, transposing, concatenating, appending, resizing and assigning to binned variables keep each bin's event sequence intact, and a write into one bin never changes another. Joining bins along a dimension yields the concatenation of the joined bins' events.",
["histories","inputs"],"all bin index layouts (gaps, unordered storage, empty bins, slices of larger buffers) and chains of operations on them",
"Tests use contiguous buffers in order; layouts with gaps or views only arise after particular operation chains.",
["lib/variable/bins.cpp","lib/variable/include/scipp/variable/bin_array_model.h","lib/variable/include/scipp/variable/bin_array_variable.tcc","lib/dataset/bins.cpp","lib/core/include/scipp/core/bucket.h"],
[("expect_valid_bin_indices","lib/core/except.cpp / lib/variable/except.cpp"),("copy_slices","lib/variable/bins.cpp, lib/dataset/bins.cpp")],
[("bin indices, buffer","begin/end per bin into a shared event buffer","lib/variable/include/scipp/variable/bin_array_model.h")],
["make_bins, copy, concat, append, bins slicing, concatenate"])
p("P18","Histogramming, rebinning and lookup conserve and place counts correctly",
"Histogramming adds each unmasked event's weight (value and variance) to exactly the bin containing its coordinate and ignores others, for raw and binned events alike. Rebinning a histogram distributes counts in proportion to overlap so that totals over the common range are conserved, and looking up or scaling by a histogram uses exactly the bin (or previous point) that contains the coordinate.",
["inputs"],"all edges (uniform and not, ascending and descending), all event coordinates including boundary and out-of-range values, any masks and memory layout",
"Tests check fixed edges; boundaries and the separate uniform / non-uniform, inner / outer dimension code paths are not enumerated.",
["lib/dataset/histogram.cpp","lib/dataset/bins.cpp","lib/variable/rebin.cpp","lib/core/include/scipp/core/element/histogram.h","lib/core/include/scipp/core/element/rebin.h","lib/core/include/scipp/core/element/event_operations.h","lib/dataset/rebin.cpp"],
[("histogram kernels for uniform and sorted edges","lib/core/include/scipp/core/element/histogram.h"),("overlap-weighted rebin","lib/core/include/scipp/core/element/rebin.h, lib/variable/rebin.cpp")],
(),["histogram","rebin","lookup_previous","buckets::map","buckets::scale"])
p("P19","Groupby: split-apply-combine equals filtering each group and reducing it",
"Grouping slices by a coordinate value or by coordinate bins and reducing (sum, mean, min, max, all, any, nan-forms, concatenation) gives, for every group, the reduction of exactly the unmasked slices whose key belongs to the group. Groups appear in sorted order with one entry per distinct key (NaN keys last) or one per bin, and data not depending on the reduced dimension is preserved.",
["inputs"],"all key sequences (runs, repeats, NaN, out-of-range), bin edges, masks and layouts, for data arrays and datasets",
"Tests use a few key sequences; runs, repeats and masks interact with slice merging and with reduction of partial groups.",
["lib/dataset/groupby.cpp","lib/dataset/include/scipp/dataset/groupby.h"],
[("contiguous-run slices per group","lib/dataset/groupby.cpp MakeGroups / MakeBinGroups"),("accumulate into output slice","lib/dataset/groupby.cpp reduce_")],
(),["groupby(...).sum/mean/min/max/all/any/concat"])
p("P20","Sorting and filtering permute or select whole records",
"Sorting by a key returns the input's records (data with all dependent coords and masks) permuted so that the key is monotonic (NaN keys last, or first when a data array or dataset is sorted in descending order), and extracting by a boolean condition or ranges returns exactly the selected records in order. Sortedness tests are true exactly if every adjacent pair along the dimension is ordered.",
["inputs"],"all keys (duplicates, NaN, strings), all conditions, dense and binned data, any dimension position",
"Tests sort a few fixed arrays.",
["lib/dataset/sort.cpp","lib/dataset/extract.cpp","lib/variable/sort.cpp","lib/variable/util.cpp"],
[("index permutation and range extraction","lib/dataset/sort.cpp, extract.cpp")],
(),["sort","extract","extract_ranges","issorted","allsorted"])
p("P21","Equality is an equivalence and copies are equal but independent",
"Comparison of variables, data arrays and datasets is reflexive, symmetric and transitive, ignores memory layout and metadata order, and is false whenever any element, variance, unit, label, shape, alignment flag, coord or mask differs; the NaN-tolerant form differs only in treating NaN as equal to NaN. A deep copy is equal to its source, shares no data, coords or masks with it, and is always writable.",
["inputs","programs"],"all pairs and triples of objects differing in zero or one aspect, in every memory layout",
"Tests compare selected pairs and never all single-aspect differences combined with layouts.",
["lib/variable/variable.cpp","lib/dataset/data_array.cpp","lib/dataset/dataset.cpp","lib/dataset/sized_dict.cpp","lib/dataset/operations.cpp","lib/variable/include/scipp/variable/element_array_variable.tcc"],
[("operator== and equals_nan","lib/variable/variable.cpp, lib/dataset/*"),("copy","lib/variable/operations.cpp, lib/dataset/operations.cpp")],
(),["operator==, equals_nan, copy"])
p("P22","Coordinate transformations evaluate each graph node once, in dependency order",
"Transforming coordinates with a graph of functions computes every requested coordinate from the graph by applying each needed function exactly once after its inputs (once for its dense and once for its event form in binned data), uses existing coordinates in place of graph functions where present, and reports missing inputs and cycles as errors. Options to keep or drop inputs, intermediates and aliases determine exactly which coordinates remain and which are aligned, dimensions are renamed only when a dimension coordinate is consumed unambiguously, and the input object is never modified.",
["inputs","configurations"],"all acyclic and cyclic graphs over a small set of coordinate names, with multi-output functions and renames, all option settings and sets of existing coordinates",
"Tests list example graphs; the interplay of options, aliases, shared inputs and dimension coordinates is combinatorial, and the Python tests cannot run here at all.",
["src/scipp/coords/transform_coords.py","src/scipp/coords/graph.py","src/scipp/coords/rule.py","src/scipp/coords/coord_table.py","src/scipp/coords/coord.py","src/scipp/coords/options.py"],
[("rule graph from target, topological sort","src/scipp/coords/graph.py"),("usage counting","src/scipp/coords/coord_table.py"),("dimension renaming by colouring","src/scipp/coords/graph.py / transform_coords.py")],
(),["transform_coords"])
p("P23","Floating-point results of transcendental functions are accurate",
"Exponentials, logarithms, trigonometric and hyperbolic functions and their propagated uncertainties agree with the mathematical value to within rounding for every representable input.",
["inputs"],"all representable inputs","Tests sample a few values.",
["lib/core/include/scipp/core/element/math.h","lib/core/include/scipp/core/element/trigonometry.h","lib/core/include/scipp/core/element/hyperbolic.h"],
[("std math functions and derivative formulas","lib/core/include/scipp/core/element/math.h")])
p("P24","Saving and loading files round-trips every supported object",
"Saving any supported variable, data array, dataset or data group to HDF5 and loading it back yields an identical object, including units, dtypes, variances, masks, alignment and binned structure.",
["inputs"],"all supported objects","Tests round-trip selected objects.",
["src/scipp/io/hdf5.py"],[("writer/reader per type","src/scipp/io/hdf5.py")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
