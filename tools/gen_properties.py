#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))
MF='ModelFitting/'; FW='SEFramework/'; IM='SEImplementation/'; PY=IM+'python/sourcextractor/config/'

prop('C01','World/engine coordinate converters are true inverses with true derivatives',
 'For every fit-parameter coordinate converter (neutral, normalised, sigmoid, exponential sigmoid) and every world value strictly inside its valid range, converting world to engine and back returns the same world value. The derivative a converter reports at a world value equals the mathematical derivative of its engine-to-world function at that point. A bounded converter returns a world value inside [min, max] for every engine value.',
 ['inputs'],'all world/engine values and all (min,max,normalisation) settings',
 'No unit test covers the converters; sampled points cannot establish an identity over the reals.',
 [MF+'src/lib/Parameters/'+f for f in ('NeutralConverter.cpp','NormalizedConverter.cpp','SigmoidConverter.cpp','ExpSigmoidConverter.cpp')],
 [('closed-form forward, inverse and derivative functions',MF+'src/lib/Parameters')],observe=['worldToEngine','engineToWorld','getEngineToWorldDerivative'])

prop('C02','Parameters, their observers and dependents never disagree',
 'When a fit parameter is set, in world or in engine coordinates, both coordinates describe the new value before any observer is told, and every registered observer is told the new world value exactly once. An object that registered itself as an observer of a parameter it keeps alive or outlives is no longer notified once it is destroyed, and moving such an object leaves the moved-to object observing and owning everything the original did. A dependent parameter always reads as its function applied to the current values of its inputs, in the declared order.',
 ['inputs','histories'],'all sequences of set/observe/unobserve/move/destroy on parameters',
 'DependentParameter_test exercises a few fixed sequences; lifetimes and notification order over all histories are untested.',
 [MF+'src/lib/Parameters/BasicParameter.cpp',MF+'src/lib/Parameters/EngineParameter.cpp',MF+'ModelFitting/Parameters/DependentParameter.h',MF+'src/lib/Engine/WorldValueResidual.cpp',MF+'src/lib/Engine/EngineValueResidual.cpp',MF+'src/lib/Models/RotatedModelComponent.cpp'],
 [('observer map and notification loop',MF+'src/lib/Parameters/BasicParameter.cpp'),('observer removal in destructors',MF+'src/lib/Models/RotatedModelComponent.cpp')],
 [('m_value/m_engine_value','the two coordinates of one value',MF+'ModelFitting/Parameters/EngineParameter.h')])

prop('C03','Residuals and fit parameters keep their slots, count and sign',
 'Engine parameter values are read out and written back in registration order, one slot each; every residual block fills exactly its declared number of slots, and blocks occupy consecutive, non-overlapping slots in registration order for every kind of output iterator. A residual comparator gives zero when model equals data and otherwise has the sign of weight times (data minus model), growing with the misfit; parameter priors give weight times the difference between the parameter and its expected value. Engine-space covariances are scaled to world space by the derivative of both the row and the column parameter.',
 ['inputs','configurations'],'all numbers and kinds of parameters, residual blocks, weights and values',
 'No unit test covers the engine bookkeeping; index and sign identities hold for all inputs or not at all.',
 [MF+'src/lib/Engine/EngineParameterManager.cpp',MF+'ModelFitting/Engine/_impl/EngineParameterManager.icpp',MF+'src/lib/Engine/ResidualEstimator.cpp',MF+'ModelFitting/Engine/_impl/ResidualEstimator.icpp',MF+'ModelFitting/Engine/ChiSquareComparator.h',MF+'ModelFitting/Engine/LogChiSquareComparator.h',MF+'ModelFitting/Engine/AsinhChiSquareComparator.h',MF+'src/lib/Engine/WorldValueResidual.cpp',MF+'src/lib/Engine/EngineValueResidual.cpp'],
 [('sequential iteration over registered parameters and providers',MF+'src/lib/Engine')])

prop('C04','A fit ends with the solver solution in the parameters and nothing leaked',
 'When a least-squares engine returns from a minimisation it ran, the fit parameters hold the solution the solver returned (not the last trial point), and the reported uncertainties are the square roots of the diagonal of the world-space covariance evaluated there. A solver failure is never reported as success. Every exit of a solve releases whatever the solve acquired: workspaces are freed and no lock stays held.',
 ['inputs','fault_sequences'],'all problems and all solver outcomes, including allocation failure',
 'The solvers need external libraries and failures at specific points; no test covers them.',
 [MF+'src/lib/Engine/LevmarEngine.cpp',MF+'src/lib/Engine/GSLEngine.cpp'],
 [('post-solve update and summary construction',MF+'src/lib/Engine')])

prop('C05','Scaling, rotating or transforming a model moves all its views of itself alike',
 'A scaled, rotated or linearly transformed model component evaluates its inner component at the exact inverse image of the point, decides "inside the sharp region" at that same inner point, and maps each sharp sample by the forward transform, so a sample produced at an inner point is located where evaluation maps back to that inner point. Sample fluxes are multiplied by the area factor of a scaling and left unchanged by a rotation or by an area-corrected linear transform, whose values are divided by the absolute determinant. Rasterisation hints are forwarded to the inner component, divided by the smaller axis scale.',
 ['inputs'],'all points, scale factors, angles and invertible matrices',
 'Only single-profile rasterisation is tested (SersicProfile, AutoSharp, OldSharp); the wrappers are not.',
 [MF+'src/lib/Models/ScaledModelComponent.cpp',MF+'src/lib/Models/RotatedModelComponent.cpp',MF+'src/lib/Models/TransformModelComponent.cpp',MF+'ModelFitting/Models/_impl/CircularlySymmetricModelComponent.icpp'],
 [('paired forward and inverse coordinate maps','ModelFitting/src/lib/Models')])

prop('C06','Image views address exactly the pixels they promise, by pixel and by chunk',
 'For every image view (sub-image, mirrored, recentred, padded, masked, thresholded, subtracted, multiplied, signal-to-noise, constant, function) the view has its documented size, and the pixel at (x, y) is the documented function of the corresponding source pixels. Reading a rectangular chunk at any position and size gives a chunk of that size whose pixels equal the individual pixels of the view.',
 ['inputs'],'all image sizes, offsets, chunk rectangles and pixel coordinates',
 'Unit tests check one small image per view; agreement must hold for all rectangles and sizes, and most chunk paths are untested.',
 [FW+'SEFramework/Image/'+f for f in ('SubImage.h','MirrorImage.h','RecenterImage.h','PaddedImage.h','MaskedImage.h','ThresholdedImage.h','ProcessedImage.h','FunctionalImage.h','ConstantImage.h','ImageBase.h')],
 [('per-view getChunk and getValue implementations',FW+'SEFramework/Image')])

prop('C07','Padding policies always land on an existing pixel',
 'For every padding policy (replicate, reflect, reflect-101, wrap), every image size and every coordinate within one image size beyond the border, the padded coordinate lies inside the image, and a coordinate already inside the image is unchanged. Coordinates in the padding correspond to the documented pixel: the border pixel, the mirror image with or without repeating the border, or the periodic copy.',
 ['inputs'],'all image sizes and all coordinates within one image size outside the border',
 'PaddedImage_test samples one 3x3-style image per policy.',
 [FW+'SEFramework/Image/PaddedImage.h'],[('coordinate interpolation functions',FW+'SEFramework/Image/PaddedImage.h')])

prop('C08','Pixel storage is row-major, in bounds and never aliased by accident',
 'In-memory images and chunks locate pixel (x, y) at base plus x plus y times the row stride in both readers and writers, with the stride of the underlying image and not of the view. Creating an image or chunk from another image copies its pixels in the same order and size; only a temporary that uniquely owns its pixels may be emptied, so no read or write through a derived chunk changes the image it came from. Whole-image accessors, iterators and fill operations cover exactly width times height pixels.',
 ['inputs','histories'],'all sizes, offsets and sequences of chunk creation, copy and mutation',
 'ImageChunk_test and VectorImage_test sample a couple of fixed images.',
 [FW+'SEFramework/Image/VectorImage.h',FW+'SEFramework/Image/ImageChunk.h',FW+'SEFramework/Image/ImageAccessor.h'],
 [('index arithmetic and ownership of the pixel vector',FW+'SEFramework/Image')])

prop('C09','Every tile pixel type is handled, and handled as the same type everywhere',
 'For each supported tile pixel type, creating a tile, reporting its type, converting its pixels to another type and sizing its storage all agree on one C++ type and its byte size, and FITS reading and writing use the matching FITS data type and BITPIX code. A tile of one type is never reinterpreted as another: access as a different type throws or converts value by value. An image reads from a source of its own pixel type, and unknown FITS pixel codes raise an error instead of falling through.',
 ['inputs','configurations'],'all tile types in all the places that switch over them',
 'No test covers ImageTile or type conversion; adding or editing one table entry compiles silently.',
 [FW+'SEFramework/Image/ImageTile.h',FW+'src/lib/Image/ImageTile.cpp',FW+'SEFramework/FITS/FitsImageSource.h',FW+'src/lib/FITS/FitsImageSource.cpp'],
 [('type tables',FW+'src/lib/Image/ImageTile.cpp')])

prop('C10','The tile cache keeps its books, its locks and every written pixel',
 'All shared tile-cache state is touched only while the cache lock is held, in a mode strong enough for the access, and locks are always released. The accounted memory changes by exactly the size of each tile added or removed, and a tile is added to or removed from the map, the eviction list and the accounting together. A tile with modified pixels is saved to its source before it is dropped, evicted or the cache is flushed, and every pixel write marks its tile as modified. A tile is requested at its place on the grid, at most one copy of it is loaded at a time, and a rectangle read through the cache has each pixel from the tile that holds it.',
 ['schedules','histories'],'all interleavings of tile requests, writes, evictions and flushes',
 'TileManager needs FITS and threads; no stable test covers it, and races do not show in samples.',
 [FW+'src/lib/Image/TileManager.cpp',FW+'SEFramework/Image/TileManager.h',FW+'src/lib/Image/ImageTile.cpp',FW+'SEFramework/Image/WriteableBufferedImage.h',FW+'SEFramework/Image/ImageTile.h'],
 [('shared mutex with upgrade, saveIfModified in the tile destructor',FW+'src/lib/Image/TileManager.cpp')])

prop('C11','FITS errors never pass unnoticed and images use their own HDU',
 'After every call into the FITS library that reports a status (closing a file excepted), the status is tested before the results of the call are used or the function returns normally; it may be handed on to further calls, which keep a failure. A failed status raises an error or is deliberately cleared before reuse, and a status variable is initialised before its first use. Every FITS file handle opened is owned by an object that closes it on all paths. Each image reads and writes its own HDU, whatever other images of the file do, and its current layer, at the pixels of the tile; only existing layers of a data cube can be selected.',
 ['fault_sequences','inputs'],'all FITS calls and all failing statuses',
 'Requires I/O failures at each call; no stable test reads FITS files.',
 [FW+'src/lib/FITS/FitsFile.cpp',FW+'src/lib/FITS/FitsImageSource.cpp',FW+'SEFramework/FITS/FitsImageSource.h'],
 [('status checks after each fits_* call',FW+'src/lib/FITS')])

prop('C12','Aperture measurements stay on the image and account for every lost pixel',
 'When fluxes, flags or aperture check images are computed, pixels are only ever read or written at coordinates inside the image, whatever the aperture position, size or shape. A flux measurement of an aperture entirely outside the image is zero and flagged OUTSIDE only; an aperture box that had to be clipped raises BOUNDARY; BIASED is raised when the pixels whose variance exceeds the threshold make up more than 10% of the covered area, and NEIGHBORS when pixels above the detection threshold that do not belong to the object do; pixels outside the aperture (zero area) contribute nothing to anything. Flux, variance and total area accumulate the same per-pixel aperture fraction, and a pixel replaced by symmetry uses the value and variance of its point-mirror about the centre if that is inside the box and valid, and zero otherwise. Filling or drawing an aperture writes the given value to exactly the image pixels with non-zero (drawn) area.',
 ['inputs'],'all aperture geometries, positions and image sizes',
 'FluxMeasurement_test and Flagging_test use one or two circular apertures.',
 [FW+'src/lib/Aperture/FluxMeasurement.cpp',FW+'src/lib/Aperture/Flagging.cpp',FW+'src/lib/Aperture/NeighbourInfo.cpp',FW+'SEFramework/Aperture/FluxMeasurement.h',FW+'src/lib/Aperture/CircularAperture.cpp',FW+'src/lib/Aperture/EllipticalAperture.cpp',FW+'src/lib/Aperture/TransformedAperture.cpp'],
 [('bounds tests dominating pixel accesses; flag accumulation',FW+'src/lib/Aperture')])

prop('C13','Source flags are distinct bits, all named, and only ever accumulate',
 'Every quality flag except NONE is a distinct single bit and every flag can be printed by name. Combining flags is a bitwise union: no operation that accumulates flags clears a bit that was set. The overall source flag contains every flag raised by each of its contributing measurements.',
 ['inputs','configurations'],'all flag values and combinations',
 'No test covers the flag algebra or the name table.',
 [FW+'SEFramework/Source/SourceFlags.h',IM+'SEImplementation/Plugin/SourceFlags/SourceFlags.h'],
 [('enum values, operators and name table',FW+'SEFramework/Source/SourceFlags.h')])

prop('C14','No source is lost or duplicated between pipeline stages',
 'Every pipeline stage forwards each source or group it receives exactly once, keeps it for later release, or drops it only by an explicit documented rule (a group left without sources, a source with too few pixels or too few pixels above the core threshold, one that does not match as required, one split into several); an exception is the only other way to end. A source merged into another group takes all of its members along and no emptied group stays behind. On an end-of-data signal a grouping releases exactly the groups with a selected member; every other stage passes the signal on exactly once, and the prefetcher passes sources and signals on in the order received, each once. Segmentation ends every frame with a signal that selects everything, after labelling. Observers of a stage see each object before it is handed over, and the output gets every member of a group exactly once.',
 ['histories','inputs'],'all sequences of received sources, groups and signals',
 'Pipeline tests need libraries missing here; conservation over all histories is not testable by samples.',
 [FW+'SEFramework/Pipeline/PipelineStage.h',FW+'src/lib/Pipeline/SourceGrouping.cpp',FW+'src/lib/Pipeline/Partition.cpp',FW+'src/lib/Pipeline/Deblending.cpp',FW+'src/lib/Pipeline/Measurement.cpp','SEMain/src/lib/Sorter.cpp',IM+'src/lib/Prefetcher/Prefetcher.cpp',IM+'src/lib/Measurement/MultithreadedMeasurement.cpp'],
 [('linear ownership of unique_ptr along the stages',FW+'src/lib/Pipeline')])

prop('C15','Cached properties are keyed exactly and dropped when the group changes',
 'Two property identifiers are equal exactly when both their type and index are equal, ordering and hashing are consistent with that equality, and looking up a property never returns one stored under another identifier. A property stored again replaces the previous value, and clearing removes all. An object that computes properties on demand returns a stored one without computing it again, and otherwise runs the task made for exactly that identifier on itself; tasks and factories are found by the identifier and the type they were registered for, and a second factory for a type is refused. Whenever a source is added to, removed from or merged into a group that computes properties on demand, the properties computed for that group, on the group and on each of its sources, are discarded so that no stale group measurement is returned; adding adds the given source once, removing removes the given one, and merging takes over every source of the other group.',
 ['inputs','histories'],'all property types, indices and sequences of set/get/clear and membership changes',
 'Property_test compares a few identifiers; cache coherence after arbitrary membership histories is untested.',
 [FW+'src/lib/Source/EntangledSource.cpp',FW+'src/lib/Task/TaskProvider.cpp',FW+'SEFramework/Task/TaskFactoryRegistry.h',FW+'SEFramework/Property/PropertyId.h',FW+'src/lib/Property/PropertyId.cpp',FW+'SEFramework/Property/PropertyHolder.h',FW+'src/lib/Property/PropertyHolder.cpp',FW+'src/lib/Source/SourceGroupWithOnDemandProperties.cpp',FW+'src/lib/Source/SimpleSourceGroup.cpp',FW+'src/lib/Source/SourceWithOnDemandProperties.cpp'],
 [('property maps and clearGroupProperties',FW+'src/lib/Source')])

prop('C16','Every requestable property has a producer and computing it terminates',
 'Each output column a plugin offers is backed by a property that a registered task factory can produce, and a factory that is asked for a property type it registered for returns a task that stores that property under the requested index on every normal path; it declines only an index or a configuration it does not serve. Each property type has one factory and each column name one registration. Every property a task reads has a producer and is read under the index it is stored at: a task for one measurement frame reads the per-frame properties of that frame. The chain of properties that tasks request from the same source or group never cycles back to the property being computed.',
 ['configurations','programs'],'all plugins, tasks and output selections',
 'Plugins and tasks cannot be linked in this build; wiring mistakes show only for particular output configurations.',
 [IM+'src/lib/Plugin',IM+'SEImplementation/Plugin'],
 [('plugin registration and task compute methods',IM+'src/lib/Plugin')])

prop('C17','Worker, prefetch and output threads share data only under their locks',
 'State that several threads use while sources flow (queues, maps, lazily created check images, the task cache, progress figures, the shared PSF file handle) is accessed only with its lock held, exclusively when it is written. No lock is held while joining or waiting for other threads or while the prefetcher calls its next stage, and no thread locks a mutex it already holds or asks for a check image while it holds another; check images are handed out locked. A consumer removes from its queue only after it saw it not to be empty. Work made visible to a waiting consumer is published before the consumer is notified, a slot acquired to bound the queue is released exactly once per released source, an entry leaves the queue a synchronisation waits on only after it was passed on, and threads end and synchronisations return only when nothing is left. Every started thread is joined. A waiting thread keeps checking for failed or vanished workers instead of waiting forever.',
 ['schedules'],'all interleavings of producer, worker and output threads',
 'Races and lost wake-ups depend on the schedule; no test runs these classes.',
 [IM+'src/lib/Prefetcher/Prefetcher.cpp',IM+'src/lib/Measurement/MultithreadedMeasurement.cpp',IM+'src/lib/CheckImages/CheckImages.cpp','SEMain/src/lib/ProgressMediator.cpp',FW+'src/lib/Psf/VariablePsfStack.cpp',FW+'src/lib/Task/TaskProvider.cpp'],
 [('mutexes, condition variables, semaphore',IM+'src/lib')])

prop('C18','FFT plans are safe and match buffers; convolution is the convolution sum',
 'FFTW planner calls happen only while one process-wide planner lock is held exclusively, and plan caches are only read with their lock held and extended with it held exclusively. A plan is built for, cached under and looked up by the same dimensions and precision; buffers are at least as large as the transform needs (height rows of 2*(width/2+1) values). The rounded-up transform size is never smaller than the requested one. For every image size and every kernel with odd dimensions, the DFT convolution stores the kernel with its centre at the origin (wrapped, zero elsewhere), transforms the padded image with at least half a kernel of padding on every side, multiplies every complex coefficient with that of the kernel and reads every output pixel back from where the padding put it, divided by the number of samples; the direct convolution sums each kernel tap once, mirrored, against the padded image and writes every pixel of the image and no other.',
 ['schedules','inputs'],'all image sizes, odd kernel sizes, both parities of the transform size, and all interleavings of threads creating plans',
 'FFT_test, DFT_test and DirectConvolution_test use a few fixed sizes from one thread.',
 [FW+'src/lib/FFT/FFT.cpp',FW+'SEFramework/FFT/FFT.h',FW+'SEFramework/FFT/FFTHelper.h',FW+'SEFramework/Convolution/DFT.h',FW+'SEFramework/Convolution/DirectConvolution.h'],
 [('plan cache mutex and fftw_global_plan_mutex',FW+'src/lib/FFT/FFT.cpp'),('DFTConvolution prepare/convolve/padKernel',FW+'SEFramework/Convolution/DFT.h')])

prop('C19','Spatial range queries return every point in range and nothing else',
 'A range query on the k-d tree or the quad tree returns exactly the stored points whose Euclidean distance to the query position is within the radius, for every set of points and every query: subtrees are skipped only when no point inside them can be in range. Inserting more points, splitting or growing the tree neither loses nor duplicates points, and the structures always terminate when built.',
 ['inputs','histories'],'all point sets (including coincident points), query positions and radii',
 'QuadTree_test and KdTree tests use small fixed grids that do not hit far-corner or coincident cases.',
 ['SEUtils/SEUtils/KdTree.h','SEUtils/SEUtils/_impl/KdTree.icpp','SEUtils/SEUtils/QuadTree.h','SEUtils/SEUtils/_impl/QuadTree.icpp'],
 [('pruning tests and subdivision',"SEUtils/SEUtils/_impl")])

prop('C20','Python measurement images and groups keep every image, with its own settings',
 'Loading images, data cubes or lists pairs each image with its own PSF, weight map, HDU and layer; mismatched list lengths raise an error and no image is silently dropped. Every option given for a measurement image reaches the corresponding setting of that image, explicit values win over header keywords, which win over defaults. Splitting and nesting groups keeps every image exactly once, and the compatibility functions behave as the corresponding methods on the global configuration with the same arguments.',
 ['inputs','configurations'],'all combinations of images, lists, HDUs and options',
 'No Python unit test runs in this build; option plumbing is only exercised by whole-program runs.',
 [PY+'measurement_images.py',PY+'measurement_config.py',PY+'compat.py',IM+'src/lib/PythonConfig/PyMeasurementImage.cpp',IM+'src/lib/PythonConfig/PythonModule.cpp'],
 [('argument plumbing and group containers',PY)])

prop('C21','Python model-fitting configuration registers everything it refers to',
 'Adding a model to a group registers the model under its own kind, attaches it to every measurement image of the group and registers all of the parameters the model uses, including those that dependent parameters refer to; output columns and priors register all the parameters they name. Describing a configured model never fails, building a model does not change the objects passed to it, and settings changed through the configuration functions are kept under their own names. Values, ranges and priors evaluate to what was given or to what the given function returns. World positions, radii, angles and ratios follow from the pixel parameters with the FITS origin taken off, along the longer axis, whatever the axis ratio.',
 ['inputs','configurations'],'all model kinds, parameter graphs and configuration calls',
 'No Python unit test runs in this build; missing registrations show only for particular model kinds.',
 [PY+'model_fitting.py',PY+'measurement_config.py',PY+'compat.py',IM+'src/lib/Configuration/ModelFittingConfig.cpp',IM+'src/lib/PythonConfig/PythonModule.cpp'],
 [('registration dictionaries',PY+'model_fitting.py')])

prop('C22','No behaviour depends on uninitialised object state',
 'Every object of the library is fully determined once constructed: no constructor leaves a number, flag or pointer member unset that a later operation can read before it is assigned. Copying or moving an object carries over every member that its behaviour depends on.',
 ['inputs','histories'],'all classes, constructors and operation sequences',
 'Uninitialised reads usually yield plausible values in a test run; only some histories expose them.',
 ['ModelFitting','SEFramework','SEImplementation','SEUtils','SEMain'],
 [('constructors and default member initialisers','SEFramework/SEFramework')])

prop('C23','Catalogue rows keep their order, columns and values',
 'With sorted output, sources leave the sorter in increasing identifier order without gaps, each group released exactly once and only when it is next. A catalogue row holds exactly the requested output columns, in the registered order, each computed from its own property and index, and column metadata (name, unit, description) belongs to the same column. Buffered rows are written out before the catalogue is closed and are never written twice.',
 ['schedules','inputs','configurations'],'all arrival orders and all output selections',
 'Arrival order depends on thread schedules; the output classes cannot be linked here.',
 ['SEMain/src/lib/Sorter.cpp',FW+'src/lib/Output/OutputRegistry.cpp',FW+'SEFramework/Output/OutputRegistry.h',IM+'SEImplementation/Output/FlushableOutput.h',IM+'src/lib/Output/LdacOutput.cpp'],
 [('sorter buffer and converter table',FW+'src/lib/Output/OutputRegistry.cpp')])

prop('C24','Every declared configuration option is honoured',
 'Each option a configuration module declares is read back by that module under the same name, with the declared type, and reaches the getter that reports it; options without a default are only read after checking that they are present. A configuration module only consults other modules it declared as dependencies, and enumerated option values all map to a setting, while unknown values are rejected with an error.',
 ['configurations'],'all options of all configuration modules and all their values',
 'The configuration modules cannot be linked here; option handling is only exercised by whole-program runs.',
 [IM+'src/lib/Configuration',IM+'SEImplementation/Configuration'],
 [('getProgramOptions/initialize pairs',IM+'src/lib/Configuration')])

prop('C25','Pixel coordinates and rectangles obey value semantics and set algebra',
 'Pixel coordinates are equal exactly when both components are equal, their hash agrees with equality, addition, subtraction and scaling act on each component alike, and clipping returns the nearest coordinate inside the image. A pixel rectangle reports the corners it was built from, a width and height of max - min + 1, and zero width and height when it is empty; copies keep both corners. The bounding box of a source (and of its pixels above half maximum) is the exact minimum and maximum of each coordinate over the pixels concerned.',
 ['inputs'],'all coordinates and rectangles',
 'PixelCoordinate_test checks a few values; rectangles are untested.',
 ['SEUtils/SEUtils/PixelCoordinate.h','SEUtils/SEUtils/PixelRectangle.h'],
 [('component-wise operators','SEUtils/SEUtils/PixelCoordinate.h')])

prop('C26','Small linear algebra and numerical derivatives are exact identities',
 'For 2x2 matrices, multiplication is the matrix product, the transpose and determinant are the mathematical ones and a matrix times its inverse is the identity whenever it is invertible. Transformed apertures evaluate the inner aperture at the inverse-transformed offset and their bounding box covers the transformed shape. A circular aperture covers a pixel fully when the pixel lies inside the circle, not at all when it lies outside, and otherwise by the fraction of evenly spread sample points inside; the squared radius of an aperture is its defining quadratic form. Numerical derivatives use differences taken symmetrically about the point that are exact for linear functions, with the step they divide by equal to the step they took.',
 ['inputs'],'all matrices, offsets, functions and step sizes',
 'Aperture_test and NumericalDerivative_test sample a few values.',
 ['SEUtils/SEUtils/Mat22.h','SEUtils/SEUtils/NumericalDerivative.h',FW+'src/lib/Aperture/TransformedAperture.cpp',FW+'src/lib/Aperture/EllipticalAperture.cpp',FW+'src/lib/Aperture/CircularAperture.cpp'],
 [('closed-form expressions','SEUtils/SEUtils/Mat22.h')])

prop('C27','Image and world coordinates use one pixel convention in both directions',
 'Converting image to world coordinates adds the same one-pixel FITS origin offset on both axes that converting world to image subtracts, for every conversion entry point including the Jacobian and the Python helpers. Positions handed to models are counted from one, converted with that convention to the frame, and put half a pixel from the corner of the stamp; the Jacobian is the change of the position in the frame per pixel step along each axis of the reference; a cutout counts from its own corner. Each conversion works on its own copy of the projection state, with room for all axes of the image, and releases it on every exit; a failed projection ends in an error or, from world to image, in coordinates at minus infinity, never in unset ones.',
 ['inputs','schedules','fault_sequences'],'all coordinates, projections and concurrent conversions',
 'Needs FITS headers, threads and failing projections; no stable test covers it.',
 [FW+'src/lib/CoordinateSystem/WCS.cpp',IM+'src/lib/Plugin/Jacobian/JacobianTask.cpp',PY+'model_fitting.py'],
 [('offset by one and wcs copies',FW+'src/lib/CoordinateSystem/WCS.cpp')])

prop('C28','Background and filtering steps use only valid, in-image pixels',
 'Local background cells partition the image: each cell covers exactly its share, truncated at the border, and pixels marked invalid never enter its statistics; a cell with too few valid pixels is marked invalid in every output. Undefined cells are replaced from the nearest defined cells and defined cells are kept. Median filtering and background-aware convolution read only pixels inside the image, weight only pixels below the variance threshold, and leave output pixels above it at zero. The background model of an image is made of the smoothed cell levels and the squared smoothed cell deviations at the size of the image, from statistics that leave out masked pixels and pixels at or above the variance threshold, with the median ratio of the two variances as scaling.',
 ['inputs'],'all image, cell, box and kernel sizes and mask patterns',
 'ReplaceUndefImage_test and MedianFilterImage_test use tiny fixed images; cell and convolution code is untested.',
 [IM+'src/lib/Background/SE/ImageMode.cpp',IM+'src/lib/Background/SE/ReplaceUndefImage.cpp',IM+'SEImplementation/Background/SE/MedianFilter.h',IM+'src/lib/Segmentation/BgConvolutionImageSource.cpp'],
 [('clipped windows and validity tests',IM+'src/lib/Background/SE')])

prop('C29','Model rasters are added to frames completely, in place, and within bounds',
 'Adding a model raster to an image reads the raster and the interpolation buffers and writes the target only inside their bounds, for every position, size and scale, including rasters partly or fully outside the image. Each target pixel under the scaled raster receives the raster interpolated at the corresponding position, with the normalised weights of the interpolation kernel, times the inverse square of the scale factor; no other pixel changes, and pixels are skipped only when the interpolation neighbourhood leaves the raster. A frame model starts from an empty frame and adds every constant, point and extended component exactly once, at its position and in the scale of the PSF; extended components are rasterised with odd dimensions large enough for model and PSF and convolved with their own context.',
 ['inputs'],'all positions, sizes and scale factors; all lists of models',
 'ImageInterfaceTraits_test covers two centred copies.',
 [IM+'src/lib/Image/ImageInterfaceTraits.cpp',IM+'SEImplementation/Image/ImageInterfaceTraits.h',IM+'SEImplementation/Image/WriteableImageInterfaceTraits.h','ModelFitting/ModelFitting/Models/_impl/FrameModel.icpp'],
 [('clipped loops and bounds tests',IM+'src/lib/Image/ImageInterfaceTraits.cpp'),('component loops','ModelFitting/ModelFitting/Models/_impl/FrameModel.icpp')])

prop('C30','Catalogue measurements are the documented functions of the source pixels',
 'For every source and image, a measurement read through its accessor or its output column is the documented function of the pixels of the source. Centroid, second moments, ellipse axes, angle and coefficients and the error ellipse are the filtered-intensity (variance) weighted moments about the centroid. Pixel boundaries and peak are the smallest, largest and highest over exactly the pixels of the source, half-maximum boundaries over those reaching half the peak. Isophotal, automatic and aperture fluxes, errors and magnitudes combine flux, variance, gain and zero point by the documented formulas, one entry per aperture and per image in order, in apertures of the documented shape transformed into the measurement frame. Boundary, saturation and external flags are raised exactly under their documented condition over the whole rectangle or every pixel of the source, and combine the flag image of its detection frame. Each result is stored for its own image instance, and each output column shows the quantity of its name, in the catalogue pixel convention.',
 ['inputs'],'all sources, pixel values, images and configurations','The measurement tasks need libraries missing here; unit tests sample one or two sources.',
 [IM+'src/lib/Plugin/PixelCentroid/PixelCentroidTask.cpp',IM+'src/lib/Plugin/ShapeParameters/ShapeParametersTask.cpp',IM+'src/lib/Plugin/PixelBoundaries/PixelBoundariesTask.cpp',IM+'src/lib/Plugin/ErrorEllipse/ErrorEllipseTask.cpp',IM+'src/lib/Plugin/IsophotalFlux/IsophotalFluxTask.cpp',IM+'src/lib/Plugin/AutoPhotometry/AutoPhotometryTask.cpp',IM+'src/lib/Plugin/AperturePhotometry/AperturePhotometryTask.cpp',IM+'SEImplementation/Plugin/SaturateFlag/SaturateFlagSourceTask.h',IM+'SEImplementation/Plugin/BoundaryFlag/BoundaryFlagSourceTask.h',IM+'src/lib/Plugin/ExternalFlag/ExternalFlagTask.cpp'],
 [('accumulation over the pixels',IM+'src/lib/Plugin/ShapeParameters/ShapeParametersTask.cpp'),('derived quantities',IM+'src/lib/Plugin/AperturePhotometry/AperturePhotometryTask.cpp'),('output columns',IM+'src/lib/Plugin/PixelCentroid/PixelCentroidPlugin.cpp')])

prop('C31','Model profiles are evaluated and rasterised faithfully',
 'Every profile (Sersic, exponential, flattened Moffat, and their compact variants) evaluates its formula with its own parameters at the position it is asked for, after the transform of the model. The sharp part of a circularly symmetric component is sampled by consecutive rings from the centre to the sharp radius, each with equally spaced samples at its middle radius that together carry the profile there times the area of the ring; a region manager never returns a ring without samples or a radius that does not grow, and keeps its step limits. Rasterising adds each sharp sample to the pixel that contains it, evaluates every pixel that is not entirely sharp at its centre times its area, never writes outside the raster, and does so for every component once; compact models are finally scaled to their flux.',
 ['inputs'],'all profile parameters, positions, raster sizes and pixel scales','AutoSharp_test, OldSharp_test and SersicProfile_test sample a few radii.',
 ['ModelFitting/src/lib/Models/AutoSharp.cpp','ModelFitting/src/lib/Models/OldSharp.cpp','ModelFitting/src/lib/Models/SersicProfile.cpp','ModelFitting/src/lib/Models/FlattenedMoffatComponent.cpp','ModelFitting/ModelFitting/Models/_impl/CircularlySymmetricModelComponent.icpp','ModelFitting/ModelFitting/Models/_impl/ExtendedModel.icpp','ModelFitting/ModelFitting/Models/CompactSersicModel.h','ModelFitting/ModelFitting/Models/_impl/CompactModelBase.icpp'],
 [('ring sampling','ModelFitting/ModelFitting/Models/_impl/CircularlySymmetricModelComponent.icpp'),('region managers','ModelFitting/src/lib/Models/AutoSharp.cpp'),('rasterisation','ModelFitting/ModelFitting/Models/_impl/ExtendedModel.icpp')])

# ---- not decided by this family (listed under not_applicable) ----
prop('C40','Segmentation reports every detected pixel exactly once',
 'Every pixel above the detection threshold belongs to exactly one reported detection, and two pixels belong to the same detection exactly when they are connected.',
 ['inputs'],'all images','Needs an inductive argument over arbitrary images.',
 [IM+'src/lib/Segmentation/Lutz.cpp',IM+'src/lib/Segmentation/BFSSegmentation.cpp'],[('Lutz scan and BFS',IM+'src/lib/Segmentation')])
prop('C41','Deblending and cleaning conserve the pixels of a detection',
 'Splitting or cleaning a detection only redistributes its pixels: no pixel is lost, duplicated or invented.',
 ['inputs'],'all detections and thresholds','Quantifies over pixel sets built at run time.',
 [IM+'src/lib/Partition/MultiThresholdPartitionStep.cpp',IM+'src/lib/Deblending/Cleaning.cpp'],[('multi-threshold tree',IM+'src/lib/Partition')])
prop('C42','Catalogue content does not depend on the number of threads',
 'For the same inputs and configuration, the catalogue contains the same sources with the same measured values whatever the number of threads.',
 ['schedules'],'all thread counts and schedules','Requires comparing whole runs over all schedules.',
 ['SEMain/src/program/SourceXtractor.cpp',IM+'src/lib/Measurement/MultithreadedMeasurement.cpp'],[('sorted output and deterministic identifiers','SEMain/src')])
prop('C44','Model fitting recovers the parameters of a simulated source',
 'Fitting a noise-free simulated source with the model that generated it converges to the generating parameters.',
 ['inputs'],'all models and parameters','Numerical convergence.',
 [IM+'src/lib/Plugin/FlexibleModelFitting'],[('least-squares minimisation',MF+'src/lib/Engine')])
prop('C45','The Hilbert traversal visits every tile exactly once',
 'The Hilbert-curve iteration over a square of 2^n tiles visits every position exactly once and moves to an adjacent position at each step.',
 ['inputs'],'all sizes','Inductive geometric argument.',
 ['SEUtils/SEUtils/HilbertCurve.h'],[('recursive curve generation','SEUtils/SEUtils/HilbertCurve.h')])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for p in P:
        assert len(p['title'])<=80,(p['id'],len(p['title']))
        f.write(json.dumps(p)+'\n')
print(len(P))
