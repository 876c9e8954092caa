"""Write properties.jsonl."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":m,"where":files[0]} for m in mech]}
    if state: a["state"]=[{"name":x,"where":files[0]} for x in state]
    if obs: a["observe_at"]=obs
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
S="src/diffpy/srreal/"
p("C01","Optimized evaluation equals full evaluation after any history",
"For every history of structure edits, structure replacements, configuration changes, parallel setups and failed evaluations, a pair-quantity calculator that uses the optimized (incremental) evaluator returns the same results as an identical calculator that uses the basic evaluator on the same history. The incremental shortcut must never reuse a contribution of atoms, pairs, masks, lattice or parameters that have changed since the last successful evaluation.",
["histories"],"all sequences of edits, configuration changes, disturbances and evaluations of calculators with the optimized evaluator",
"The tests compare a handful of single edits followed by one evaluation; stale reuse shows only for particular combinations of edit, configuration change, failure and re-evaluation.",
[S+"PQEvaluator.cpp",S+"PairQuantity.cpp",S+"StructureDifference.cpp",S+"PDFCalculator.cpp",S+"BaseDebyeSum.cpp",S+"BondCalculator.cpp",S+"OverlapCalculator.cpp"],
["PQEvaluatorOptimized::updateValue","PairQuantity::stashPartialValue / restorePartialValue"],
["PQEvaluatorOptimized::mlast_structure","ticker comparison in PQEvaluatorOptimized"],["PairQuantity::eval, PairQuantity::value and the derived result getters"])
p("C02","Work split over any number of processes merges to the serial result",
"For every number of processes, the partial results of the calculators set up as the individual parallel workers merge, in any order, to the result of one serial evaluation of the same structure and configuration. Every pair is accounted for exactly once by exactly one worker, also when there are more workers than sites, when the set of workers is reused for a sequence of structures, and when the partial data pass through their text form.",
["schedules","histories"],"all worker counts up to the bound, all merge orders, all catalogued structures, calculators and evaluators, reuse of calculators for several structures",
"The tests split a few structures over one or two fixed process counts and always merge in the same order.",
[S+"PQEvaluator.cpp",S+"PairQuantity.cpp",S+"BondCalculator.cpp",S+"PairCounter.cpp"],
["PairQuantity::setupParallelRun","PairQuantity::getParallelData / mergeParallelData","PQEvaluatorBasic::updateValue"],
["PQEvaluatorBasic::mcpuindex, mncpu","PairQuantity::mmergedvaluescount"],["PairQuantity::value and result getters after mergeParallelData"])
p("C03","Neighbor enumeration lists exactly the pairs in range",
"For every structure kind (molecule, periodic, crystal with symmetry operations), anchor site, selection of neighbor sites and distance range, walking the bond generator lists each neighbor within the range exactly once with the right distance, direction, multiplicity and mean square displacement, and lists nothing else. This holds whatever sequence of anchor, site selection, range changes, rewinds and partial walks was applied to the generator before.  After a change of anchor, selection or range there is nothing to visit until the generator is rewound.",
["inputs","histories"],"all catalogued structures, anchors, selections, ranges and all sequences of generator operations up to the depth bound",
"The tests compare bond counts and a few distances for one selection order on isolated structures.",
[S+"BaseBondGenerator.cpp",S+"AtomicStructureAdapter.cpp",S+"PeriodicStructureAdapter.cpp",S+"CrystalStructureAdapter.cpp",S+"PointsInSphere.cpp"],
["BaseBondGenerator::rewind / next","PeriodicStructureBondGenerator::rewindSymmetry / iterateSymmetry / updateDistance","CrystalStructureBondGenerator"],
None,["createBondGenerator() of the structure adapters"])
p("C04","Lattice points and reflections in a shell are enumerated exactly",
"For every lattice and every radius range, the sphere generator yields every lattice point with distance strictly inside the range exactly once with the correct indices, position and distance, and yields nothing outside the closed range; rewinding repeats the same list and a copy walks independently of its original. The reflection generator does the same for reciprocal lattice points within a Q range or d-spacing range.",
["inputs"],"all lattices of a bounded parameter grid (including strongly skewed cells) and all radius ranges of a grid, all rewind points",
"The tests count points for a cubic and a hexagonal lattice.",
[S+"PointsInSphere.cpp","src/diffpy/srreal/PointsInSphere.hpp",S+"Lattice.cpp"],
["PointsInSphere::next / next_m / next_n / next_o","ReflectionsInQminQmax","ReflectionsInDmaxDmin"],
None,["PointsInSphere::rewind, next, finished, m/n/o/r"])
p("C05","Pair masks select exactly the requested pairs",
"After any sequence of index-pair, type-pair and mask-all assignments, with wildcard sites and types, a pair contributes to the results if and only if the last applicable assignment enabled it, and the result is the sum of contributions of the enabled pairs. Type masks replace all earlier index masks and follow atom types when a new structure is assigned; an index mask assigned after type masks converts them to index masks of the currently assigned structure. Whether or not evaluations happened in between makes no difference. Mask queries are symmetric in their two arguments.",
["histories"],"all sequences of mask operations up to the depth bound on small structures, interleaved with structure assignments",
"The tests set one or two masks and look at one resulting sum.",
[S+"PairQuantity.cpp"],
["PairQuantity::maskAllPairs, invertMask, setPairMask, setTypeMask","PairQuantity::updateMaskData"],
["mdefaultpairmask, minvertpairmask, msiteallmask, mtypemask"],["getPairMask, getTypeMask, eval"])
p("C06","Results depend on the current setup only, not on its history",
"The outputs of a calculator after evaluation are a function of the current structure and current configuration: they equal the outputs of a newly created calculator that was given the same final configuration and the same structure. Configuration changes that are later undone, intermediate evaluations of other structures, repeated evaluations, reading of results between a change and the next evaluation, copies of the calculator and operations on those copies leave no trace.",
["histories","configurations"],"all sequences of configuration changes, evaluations and structure assignments up to the depth bound for every calculator",
"The tests mostly use a fresh fixture with one configuration per test.",
[S+"PDFCalculator.cpp",S+"DebyePDFCalculator.cpp",S+"BaseDebyeSum.cpp",S+"BVSCalculator.cpp",S+"BondCalculator.cpp",S+"OverlapCalculator.cpp",S+"PairQuantity.cpp"],
["cached limits and structure data, e.g. cacheStructureData, cacheRlimitsData","resetValue"],
["mstructure_cache, mrlimits_cache, mrcalclosteps, mrcalchisteps"],["result getters of the calculators"])
p("C07","Saved and restored objects behave as the originals",
"Every serializable object (structures, calculators before and after evaluation, profiles, envelopes, baselines, peak width models, scattering factor, radii and bond valence tables) that is written to an archive and read back has the same configuration and outputs as the original, and after any same further operation the two still agree. Object sharing inside the archive is kept.",
["histories","configurations"],"all catalogued configurations of all serializable classes, all continuation operations up to the depth bound",
"The tests dump and load single objects in their default state and compare one or two attributes.",
[S+"PairQuantity.hpp",S+"PDFCalculator.hpp",S+"BaseDebyeSum.hpp",S+"BondCalculator.hpp",S+"BVSCalculator.hpp",S+"OverlapCalculator.hpp",S+"ScatteringFactorTable.hpp",S+"StructureAdapter.hpp","src/diffpy/serialization.ipp"],
["serialize / save / load member functions"],None,["object attributes and evaluation results after loading"])
p("C08","Structure difference describes the exact change",
"For every two structures, the reported difference lists exactly the atoms that were removed from the first and added to the second one, so that removing and adding them turns the first structure into the second, and no difference is reported only for equal structures. A fast update is allowed only when the structures share kind, lattice and symmetry and the change is small enough to be cheaper.",
["inputs"],"all pairs of structures reachable by edit sequences up to the depth bound, over all combinations of structure kinds",
"The tests check a few single atom changes for each adapter type.",
[S+"StructureDifference.cpp",S+"AtomicStructureAdapter.cpp",S+"PeriodicStructureAdapter.cpp",S+"CrystalStructureAdapter.cpp",S+"StructureAdapter.cpp"],
["AtomicStructureAdapter::diff and its overrides","StructureDifference::allowsfastupdate"],None,["StructureAdapter::diff"])
p("C09","Crystal symmetry expansion equals the explicit unit cell",
"A crystal described by an asymmetric unit and symmetry operations gives the same unit cell content, multiplicities, occupancies, displacement tensors, number density and calculator results as the same crystal with all atoms written out explicitly. Positions within the symmetry precision of a special position are merged to one site, independently of unit cell boundaries, of the order of operations and of lattice translations of the atoms.",
["inputs"],"all space groups of the catalogue, sites on a grid of general, special and nearly special positions, all operation orders and lattice shifts of the bound",
"The tests use one structure with a few special positions.",
[S+"CrystalStructureAdapter.cpp",S+"PeriodicStructureAdapter.cpp"],
["CrystalStructureAdapter::updateSymmetryPositions / expandLatticeAtom / findEqualPosition","siteMultiplicity"],
["msymatoms","symmetry cache flag"],["siteMultiplicity, expandLatticeAtom, getEquivalentAtoms, evaluation results"])
p("C10","Overlap results equal the direct geometric sums",
"For every structure, radii assignment, range and mask, the overlap calculator reports exactly the overlapping neighbor pairs with their distances, directions, sites, per-site square overlaps, total square overlap, mean, coordination numbers, type-resolved coordination and neighborhoods as defined by the geometry. Gradients are derivatives of the reported totals and the predicted changes on flipping types or positions equal the differences between full evaluations.",
["inputs","histories"],"all catalogued structures, radii tables, site pairs for flips and masks of the bound",
"The tests check a few values on a couple of structures.",
[S+"OverlapCalculator.cpp",S+"AtomRadiiTable.cpp",S+"ConstantRadiiTable.cpp"],
["OverlapCalculator::addPairContribution","flipDiffTotal, flipDiffMean, gradients, neighborhoods, coordination"],["mneighborids_cached"],["public result methods"])
p("C11","Bond valence sums equal the direct definition",
"For every structure of ions and table of bond valence parameters, the bond valence sum of each site equals the sum over its neighbors in range of the parameterised valence exp((Ro - d)/B) with sign of the ion and weight of the occupancy, independent of symmetry description and of the order of arguments in the parameter table. Expected valences, differences, root mean square and the default range follow from the same data.",
["inputs"],"all catalogued ionic structures with symmetry, parameter sets, precisions and masks of the bound",
"The tests check sums for NaCl-like structures with equal multiplicities only.",
[S+"BVSCalculator.cpp",S+"BVParametersTable.cpp",S+"BVParam.cpp"],
["BVSCalculator::addPairContribution","BVParametersTable::lookup","BVParam::bondvalence"],None,["BVSCalculator::value, valences, bvdiff, bvrmsdiff, bvmsdiff"])
p("C12","Bond listing is complete, sorted and filtered exactly",
"For every structure, range, mask and set of cone filters, the bond calculator lists each directed bond in range exactly once, sorted by distance and sites, with matching distances, directions, site indices and types; distances lie within the closed range. With cone filters exactly the bonds within some cone around its direction are listed.",
["inputs","histories"],"all catalogued structures, ranges, masks, cone filter sets and evaluation sequences of the bound",
"The tests list bonds of two structures with few filters.",
[S+"BondCalculator.cpp"],
["BondCalculator::addPairContribution / finishValue / checkConeFilters"],["mfilter_directions, mpopbonds, maddbonds"],["distances, directions, sites0, sites1, types0, types1"])
p("C13","PDF output follows its definition on its grid",
"For every configuration, the PDF calculator reports a grid that contains exactly the multiples of the step within the range, an RDF equal to the sum of the peak profiles of all pairs in range weighted by scattering factors, multiplicities and occupancies, and a G equal to scaled RDF / r with baseline and envelopes applied and Q-band limits applied through the documented Fourier transforms. F(Q) and Q grid are the discrete sine transform of G, and fftgtof and fftftog invert each other.",
["inputs","configurations"],"all catalogued structures and all combinations of grid, profile, width, envelope, baseline and Q limits of the bound",
"The tests compare stored curves for few configurations.",
[S+"PDFCalculator.cpp",S+"PDFUtils.cpp"],
["PDFCalculator::addPairContribution","getPDF / getRDF / getRDFperR / getF","fftgtof / fftftog, bandPassFilter"],["mrlimits_cache"],["public getters of PDFCalculator and fft functions"])
p("C14","Debye sum equals the direct sum over pairs",
"For every structure and configuration, the Debye sum calculators report F(Q) equal to the directly evaluated sum over all pairs of Q-dependent scattering factors, damped sine terms, multiplicities and occupancies within the declared precision, on the declared Q grid with zero below Qmin. The PDF obtained from it is the sine transform of this F(Q) on the declared r grid with baseline-free envelopes applied.",
["inputs","configurations"],"all catalogued structures with mixed site occupancies, grid and scattering tables of the bound",
"The tests compare stored curves for single component structures with equal occupancies.",
[S+"BaseDebyeSum.cpp",S+"DebyePDFCalculator.cpp"],
["BaseDebyeSum::addPairContribution / cacheStructureData","DebyePDFCalculator::getPDF"],None,["getF, getQgrid, getPDF, getRDF"])
p("C15","Lookup tables honor standard data, overrides and fallbacks",
"For every sequence of setting, resetting and looking up custom entries in the scattering factor, atom radii and bond valence tables, a lookup returns the custom value if one is set for that symbol or the documented standard value otherwise, and errors for unknown symbols. Queries for ions and isotopes fall back as documented, resets restore the standard values, and overrides of one symbol or one table object never leak to another.",
["histories"],"all sequences of table operations up to the depth bound and all symbols of the data files",
"The tests look up a few symbols after a single override.",
[S+"ScatteringFactorTable.cpp",S+"SFTXray.cpp",S+"SFTElectron.cpp",S+"SFTNeutron.cpp",S+"SFTElectronNumber.cpp",S+"AtomRadiiTable.cpp",S+"ConstantRadiiTable.cpp",S+"BVParametersTable.cpp",S+"AtomUtils.cpp"],
["ScatteringFactorTable::lookup / setCustomAs / resetCustom","AtomRadiiTable::lookup / fromString / toString","BVParametersTable::lookup / setCustom / resetAll"],["mtable of custom entries"],["lookup, getCustomSymbols, getAllCustom, getAll"])
p("C16","Class registry creates what was registered",
"After any sequence of registering and aliasing class prototypes, creating by a type or alias gives a fresh independent object of that class, and lists of types and aliases are exactly those registered. Failed registrations (duplicate type of another class, alias taken, unknown names) are reported as errors and change nothing.",
["histories"],"all sequences of register, alias and create operations up to the depth bound; all predefined classes",
"The tests create one or two classes by name.",
["src/diffpy/HasClassRegistry.ipp","src/diffpy/HasClassRegistry.hpp"],
["HasClassRegistry::registerThisType, aliasType, createByType, getRegisteredTypes, getAliasedTypes"],["RegistryStorage"],["static registry functions of each class family"])
p("C17","Named double attributes reach the right object",
"For any composition of attribute-bearing objects and any sequence of set operations, reading an attribute by name returns the value last written to that object, enumerating names returns exactly the available names, and writable names exclude the read-only ones. Access to unknown or read-only attributes raises an error and changes nothing, and the attributes registered by an object act, after a copy, on the copy itself and not on the original (components that a calculator holds by shared pointer stay shared).",
["histories","configurations"],"all attributes of all attribute-bearing classes and all sequences of set, replace component and copy operations up to the depth bound",
"The tests set a few attributes by name.",
["src/diffpy/Attributes.cpp","src/diffpy/Attributes.hpp","src/diffpy/Attributes.ipp",S+"PDFCalculator.cpp",S+"QResolutionEnvelope.cpp"],
["Attributes::getDoubleAttr, setDoubleAttr, namesOfDoubleAttributes, registerDoubleAttribute"],None,["Attributes public methods"])
p("C18","Event tickers order all changes",
"For any sequence of clicks, updates, copies and restores, event tickers are totally ordered by the time of their latest event: a clicked ticker is later than all others, an update makes it at least as late as its argument and never earlier, and comparison is consistent. Every setter that changes the contributions of pairs (peak width, scattering factor or profile data, component replacement, masks, filters, ranges and grid steps) advances the ticker of its owner and of all objects that use it. Tickers restored from an archive, in the same or another process, keep their order and are never later than new events, and restored calculators never take outdated sums for current ones.",
["histories"],"all sequences of ticker operations on several tickers up to the depth bound; all setters of ticker-bearing classes",
"The tests check a handful of clicks.",
["src/diffpy/EventTicker.cpp","src/diffpy/EventTicker.hpp"],
["EventTicker::click, updateFrom, comparison and serialization"],["EventTicker::gtick"],["EventTicker comparison operators, ticker() of objects"])
p("C19","Broken data files are reported and leave no partial state",
"When a data file is missing, empty, truncated at any point, or has a corrupted line, every lookup either raises an error or returns the correct values of complete records, with entries that are not in the file reported as unknown. A failed load is never taken for a complete one: all lookups raise an error until the file is repaired, and then they succeed with the correct values without a restart.",
["fault_sequences","crash_points"],"all truncation points at line and record boundaries and inside records, missing files and unreadable folders, all sequences of failed and good loads of the bound",
"The tests always run with intact data files.",
[S+"scatteringfactordata.cpp",S+"BVParametersTable.cpp","src/diffpy/runtimepath.cpp"],
["getWKFormulasSet, getNSFTable, loading in BVParametersTable"],["static tables in the data loaders"],["lookup functions of tables"])
p("C20","Lattice geometry conversions are consistent",
"For every valid set of lattice parameters or base vectors, the base, reciprocal base, metrics, volume, lengths and angles agree with the crystallographic definitions, Cartesian and fractional conversions of vectors and tensors are inverse, and unit cell reduction returns the equivalent position in the cell. Degenerate or left-handed base vectors raise an error and leave the lattice unchanged, angles are always defined, and a conversion can take the result of another conversion as its argument.",
["inputs","histories"],"all lattices of a parameter grid, vectors of a grid, setter sequences and compositions of conversion calls up to the depth bound",
"The tests check few lattices and one conversion at a time.",
[S+"Lattice.cpp",S+"Lattice.hpp","src/diffpy/mathutils.ipp",S+"R3linalg.cpp"],
["Lattice::setLatPar / setLatBase / updateStandardBase","cartesian, fractional, ucvCartesian, ucvFractional"],["static result buffers"],["Lattice public methods"])
p("C21","Failed operations leave calculators usable",
"When an evaluation or a setter fails with an error (unknown atom type, wrong range, invalid value, foreign parallel data), the object keeps its previous configuration (apart from the structure assigned by a failed evaluation), and any later valid evaluation gives the same results as an object on which the failed operation was never attempted.",
["fault_sequences","histories"],"all failing operations at all positions of operation sequences up to the depth bound for every calculator and evaluator",
"The tests check only that the error is raised.",
[S+"PairQuantity.cpp",S+"PQEvaluator.cpp",S+"PDFCalculator.cpp",S+"BaseDebyeSum.cpp",S+"BVSCalculator.cpp",S+"AtomRadiiTable.cpp"],
["eval error paths","setter validation"],None,["error raised, getters, later evaluation results"])
p("C22","Structure wrappers hide exactly what they should",
"For every structure and any nesting of the no-metadata and no-symmetry wrappers, the wrapper reports the same atoms, types, occupancies and displacement tensors as the wrapped structure and follows its later changes; hiding metadata keeps symmetry, multiplicities and density and only prevents the structure from configuring calculators, and hiding symmetry gives an isolated cluster of the listed atoms (multiplicity one, undefined density) that still applies metadata. Any sequence of calculations with wrapped structures, also incremental ones, equals calculations with plain structures of that content.",
["inputs","histories"],"all catalogued structures, wrapper nestings and edits of the bound",
"The tests check one wrapper on one structure.",
[S+"NoMetaStructureAdapter.cpp",S+"NoSymmetryStructureAdapter.cpp",S+"StructureAdapter.cpp"],
["forwarding methods of the wrappers"],None,["StructureAdapter methods, evaluation results"])
p("C23","Data files are found by the documented search order",
"For every state of the environment, the data folder is the one named by the environment variable when it is set and valid, otherwise the folder located relative to the library, and a missing or invalid folder raises an error that leaves later corrected lookups working. File names are joined with the folder in the same way for absolute and relative inputs.",
["configurations","fault_sequences"],"all combinations of environment values (unset, empty, valid, missing, file, relative, with trailing slash) and call sequences of the bound",
"The tests run in one environment.",
["src/diffpy/runtimepath.cpp"],
["diffpy::runtimepath::datapath","LibPathPrefix and fix of DIFFPYRUNTIME"],["cached library path"],["datapath()"])
p("C24","Peak shapes, widths, envelopes and baselines follow their formulas",
"Every peak profile is symmetric, normalised and negligible outside its reported bounds; every peak width model, envelope and baseline returns the value of its documented formula for all parameter values including zero parameters and zero arguments, never an undefined number. The maximum width reported for a structure is an upper bound of widths of all its pairs, for nonnegative correlation and broadening parameters.",
["inputs","configurations"],"all registered classes, parameter values and arguments of a grid with boundary values, all pairs of catalogued structures",
"The tests check a few numbers for default parameters.",
[S+"GaussianProfile.cpp",S+"CroppedGaussianProfile.cpp",S+"PeakProfile.cpp",S+"ConstantPeakWidth.cpp",S+"DebyeWallerPeakWidth.cpp",S+"JeongPeakWidth.cpp",S+"QResolutionEnvelope.cpp",S+"ScaleEnvelope.cpp",S+"SphericalShapeEnvelope.cpp",S+"StepCutEnvelope.cpp",S+"LinearBaseline.cpp",S+"ZeroBaseline.cpp"],
["operator() / calculate / maxWidth / xboundlo / xboundhi"],None,["public methods of these classes"])
p("C25","ObjCryst crystals and molecules are converted faithfully",
"For every ObjCryst crystal in any space group and setting, the converted structure has the same lattice, atoms, occupancies and displacement parameters, its symmetry expansion gives exactly the positions, multiplicities and displacement tensors that ObjCryst generates, and dummy atoms are left out. Molecules are converted to isolated structures with the same atoms.",
["inputs"],"all 230 space groups with alternative settings, atoms at all positions of a grid with special positions, all lists of components of the bound",
"The tests convert three crystals and one molecule.",
[S+"ObjCrystStructureAdapter.cpp",S+"CrystalStructureAdapter.cpp"],
["createStructureAdapter","fetchSymmetryOperations","getUij"],None,["createStructureAdapter()"])
p("C26","Equivalent descriptions of a structure give the same results",
"Results depend on the described arrangement of atoms only and not on the way it is written. Reordering sites, rotating or shifting a molecule, moving sites by lattice translations, shifting the origin, choosing another lattice base or a supercell, listing another symmetry image of a site, reordering, repeating or translating symmetry operations, expanding to P1, splitting a site in several of partial occupancy and adding sites of zero occupancy leave PDF, RDF and Debye results unchanged, and bonds, bond valence sums, overlaps, coordinations and density change only by the relabelling of sites and rotation of directions. This holds also with masked sites or types and for anisotropic displacements.",
["inputs","configurations"],"all equivalent descriptions of catalogued structures within the bounds and all sequences of such transformations up to the depth bound",
"The tests compare few structures described in one way.",
[S+"PeriodicStructureAdapter.cpp",S+"CrystalStructureAdapter.cpp",S+"PointsInSphere.cpp",S+"PairQuantity.cpp",S+"PDFCalculator.cpp",S+"BaseDebyeSum.cpp",S+"OverlapCalculator.cpp",S+"BVSCalculator.cpp"],
["CrystalStructureAdapter::expandLatticeAtom","PeriodicStructureBondGenerator, CrystalStructureBondGenerator","addPairContribution of all calculators"],None,["evaluation results"])
p("C27","Valid use in any order is free of memory errors and stale data",
"Any sequence of valid calls on calculators, structures, bond generators, differences, tables, profiles, envelopes and width models executes without reading or writing memory outside of live objects and without undefined arithmetic. Objects keep what they need: it does not matter in which order the caller releases structures, components, copies or generators, and arguments may refer to data of the object that is called. No result depends on leftover contents of the memory.",
["histories","inputs"],"all sequences of operations up to the depth bound, all orders of release of shared objects, all inputs of the value functions from the listed sets, two fillings of free heap and stack memory",
"The tests run few call sequences without memory checking and do not release shared objects early.",
["src/diffpy/srreal/BVParametersTable.cpp",S+"AtomicStructureAdapter.cpp",S+"BaseBondGenerator.cpp",S+"CrystalStructureAdapter.cpp",S+"PairQuantity.cpp",S+"PQEvaluator.cpp",S+"PDFCalculator.cpp",S+"DebyePDFCalculator.cpp",S+"BondCalculator.cpp",S+"OverlapCalculator.cpp",S+"PDFEnvelope.cpp",S+"PDFUtils.cpp",S+"PointsInSphere.cpp",S+"AtomUtils.cpp"],
["shared_ptr ownership of structures and components","BVParametersTable::setCustom","index arithmetic on grids","caches of bond generators"],["caches that refer to structures"],["any public method under address and undefined behavior sanitizers"])
import os
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
