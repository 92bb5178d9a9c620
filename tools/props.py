import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],
                 "observe_at":observe,"hook_needed":hook,
                 **({"state":[{"name":a,"meaning":b,"where":c} for a,b,c in state]} if state else {})}})
MG="algorithm/modifiedgenetic.go"; SI="algorithm/simple.go"; EV="algorithm/evaluator/parallel.go"
p("C01","The best fitness never gets worse",
 "For both genetic algorithms, the best fitness reported after a generation is never lower than the one reported before it. This holds for every population size, cutoff, mutation method, fitness function (whatever the sign or equality of the fitnesses) and number of generations.",
 ["histories","configurations","schedules"],"every sequence of generations of either algorithm, every population and cutoff (at least one, the population at least twice the cutoff for the modified algorithm), every outcome of the mutations and every assignment of fitnesses",
 "The existing tests run a few hundred generations of one random configuration with one constant or smooth fitness; elitism must survive every pattern of fitnesses, ties and mutations.",
 [MG,SI],[("bases survive unchanged","algorithm/modifiedgenetic.go newGeneration"),("sorting by fitness","updateFitnesses, Less, Swap"),("simple variant","algorithm/simple.go")],["Stats().BestFitness after every Step"],
 [("population, fitnesses","parallel arrays sorted together","algorithm/modifiedgenetic.go, simple.go")])
p("C02","The reported best is the fittest evaluated member",
 "After construction and after every generation, the reported best point group is one that was evaluated in that round, the reported best fitness is the fitness its evaluation returned, and no member evaluated in that round is fitter. Members that were not evaluated never count as best or survive as parents, whatever the sign of the fitnesses, the reported generation number is the number of generations run, and the reported time is that of the last generation.",
 ["histories","configurations"],"every history of generations, every population and cutoff, every assignment of fitnesses including negative and equal ones, both algorithms",
 "The tests look at the best fitness only, for one fitness landscape, so a best group that does not belong to its fitness or a member outranked by an unevaluated one goes unnoticed.",
 [MG,SI,"algorithm/algorithm.go"],[("sort, then copy the first member","updateFitnesses"),("fitness written back by member index","calculateFitnesses"),("unevaluated members ranked last","combineMutations, NewModifiedGenetic")],["Best() and Stats() against the log of evaluations"])
p("C03","Incremental evaluation equals evaluation from scratch",
 "While an algorithm runs with the parallel evaluator and the triangle or polygon image fitness functions, the fitness assigned to each member in each generation equals the fitness a fresh fitness function computes for the same points from scratch (up to rounding, and up to the choice among equally valid triangulations when points are cocircular). This holds over any history of mutations, bases, swaps, repeated points and generations.",
 ["histories","configurations","inputs"],"every history of mutations over generations, for both algorithms, both fitness functions, several block sizes, cache sizes and images, including points that coincide, are mutated onto each other, or are mutated more than once",
 "The tests never compare the incrementally updated triangulations and caches of a running population with a recomputation.",
 ["fitness/triangles.go","fitness/polygons.go",EV,MG,SI,"triangulation/incrdelaunay/delaunay.go","triangulation/incrdelaunay/voronoi.go"],
 [("base triangulation copied and only mutated points moved","Calculate, SetBase"),("evaluators follow their members","parallel.Swap"),("shared cache of triangles","parallel.Update, Prepare")],["the fitness each Calculate returns, Best() and Stats()"],
 [("Triangulation, Base","triangulation of a member and of its parent","fitness/*.go"),("cache, nextCache","double-buffered triangle cache","algorithm/evaluator/parallel.go")])
p("C04","Parallel evaluation is independent of the schedule",
 "However the worker tasks that evaluate members are scheduled, interleaved with each other and with the thread that collects their results, each generation finishes, evaluates every member exactly once with its own points, and yields the same population, best group and statistics (for fitnesses without ties). No two threads access the same memory without synchronization when at least one of them writes.",
 ["schedules","histories"],"every order in which the tasks of a generation start and finish, and every interleaving of their steps up to a preemption bound, over several generations of both algorithms with the real fitness functions and the parallel evaluator",
 "A test run sees one schedule; a lost result, a result credited to another member or a cache shared at the wrong moment shows up in few of them.",
 [MG,SI,EV,"fitness/triangles.go","fitness/polygons.go"],[("results sent with the member index over a channel","calculateFitnesses"),("channel closed after the last result","calculateFitnesses"),("double-buffered cache","parallel.Prepare/Update")],["population, Best(), Stats() after each Step under a controlled scheduler; race detector reports"],None,
 "none in the repository: the checks build /repo with a compiler overlay that adds scheduling points")
p("C05","Beneficial mutations of a base are combined",
 "In each generation of the modified genetic algorithm, every base for which at least one mutated copy is fitter than the base gets a combined member: the base with, for each point moved by such fitter copies, the new position from the fittest of the copies that moved it, and no other change. That member is evaluated with exactly these mutations and competes in the next selection; a base without fitter copies gets none.",
 ["histories","configurations","schedules"],"every assignment of fitnesses to mutated copies, every overlap of the points they move, every order in which results arrive, several bases and cutoffs, several generations",
 "The tests never look at the combined members; conflicts between copies that move the same point need particular fitness orders and arrival orders.",
 [MG,"algorithm/data.go"],[("collect the mutations of fitter copies, the fittest wins per point","setBeneficial"),("apply them to a copy of the base","combineMutations")],["the evaluations of a generation and the members it leaves"],
 [("beneficialMutations","per base, the mutations to combine and where they came from","algorithm/modifiedgenetic.go")])
p("C06","Each generation descends from the fittest members",
 "The parents of a generation are the cutoff fittest members of the previous one; each is kept unchanged, and every other evaluated member is a parent changed only by the mutation method (or, in the modified algorithm, the combination of such changes). The parents take turns, so that the numbers of children of any two parents differ by at most one, every member is mutated exactly once per generation, and all groups keep their number of points.",
 ["histories","configurations"],"every history of generations, every population and cutoff, every assignment of fitnesses, including equal ones, and every outcome of the mutations, both algorithms",
 "Tests observe the best fitness only, which still rises when selection keeps the wrong parents, mutates a parent, or mixes members up.",
 [MG,SI],[("copy bases, mutate the rest in turns","newGeneration"),("swap population and buffer","newGeneration"),("members and fitnesses sorted together","Swap")],["the points passed to each evaluation and to each mutation"])
p("C07","Caching never changes a fitness",
 "The fitness that an image fitness function returns never depends on the contents or the size of its cache: with an empty, private, shared, stale or colliding cache it returns the value that a computation without cache gives. After every evaluation the cache that the function exposes describes exactly the triangles or polygons of the evaluated points.",
 ["histories","inputs","configurations"],"every sequence of evaluations of point groups by several functions that share a cache as the parallel evaluator does, for cache sizes from one entry up, so that collisions are the rule",
 "Tests use one large cache and one history; a wrong hit needs two different triangles or polygons with the same slot.",
 ["fitness/cache.go","fitness/triangles.go","fitness/polygons.go",EV],[("slot by hash, full comparison before a hit","Hash, Equals, Calculate"),("entries stored by the slot they were computed for","CachedHash, parallel.Update")],["Calculate with caches of every size against a function with a fresh cache"],
 [("TriangleCache, nextCache","cache in use, entries of the last evaluation","fitness/*.go")])
p("C08","Triangle fitness is the normalized squared error",
 "The triangle fitness of a point group is one minus the normalized error: the sum over the triangles of its Delaunay triangulation of the squared differences between each triangle's pixels and their mean colour, plus the largest possible error for the area outside the triangles, divided by the largest possible error of the image. The value does not depend on the block size used to speed it up, lies between zero and one up to rounding, and is one exactly for a perfect match.",
 ["inputs","configurations"],"every group of points over several alphabets (on and off the grid, coinciding, collinear, at the borders), images of several sizes and patterns, block sizes from one to beyond the image",
 "The tests evaluate one group on one image with one block size.",
 ["fitness/triangles.go","fitness/pixels.go","fitness/util.go","rasterize/blocks.go"],[("per-triangle sums of colours and squares","Calculate"),("precomputed block sums","fromImageN"),("penalty for the uncovered area","Calculate")],["the value of Calculate for fresh functions"])
p("C09","Polygon fitness is the normalized squared error",
 "The polygon fitness of a point group is one minus the normalized error: the sum over the Voronoi cells of its points, with corners rounded to pixels, of the squared differences between each cell's pixels and their mean colour, divided by the largest possible error of the image. The value does not depend on the block size and lies between zero and one up to rounding.",
 ["inputs","configurations"],"every group of points over several alphabets, images of several sizes and patterns, block sizes from one to beyond the image",
 "No test evaluates the polygon fitness function.",
 ["fitness/polygons.go","fitness/pixels.go","rasterize/polygon.go","geom/polygon.go"],[("cells rounded and rasterized in blocks","Calculate, DDAPolygonBlocks")],["the value of Calculate for fresh functions"])
p("C10","Incremental triangulation stays a Delaunay triangulation",
 "After any sequence of insertions and removals of points within the image, the triangles of the incremental triangulation form a valid Delaunay triangulation of the remaining points: they do not overlap, use only these points, have no other point inside their circumcircles, and together with the helper triangles outside cover the plane around the points. It depends on the sequence only where several triangulations are equally valid.",
 ["histories","inputs"],"every sequence of insertions and removals up to a depth over alphabets of grid, collinear, cocircular, coinciding, border and generic points, images from 1x1 to 8000x6000 pixels",
 "The test inserts a handful of points and removes one; degenerate positions and removal orders are where such code fails.",
 ["triangulation/incrdelaunay/delaunay.go","triangulation/incrdelaunay/geom.go"],[("find, split and legalize","Insert"),("fill the hole of a removed vertex by ears","Remove"),("helper triangle around the image","NewDelaunay")],["the triangles iterated after every operation, against brute force"])
p("C11","Points are counted and located correctly",
 "The incremental triangulation holds points with multiplicity: inserting a point that is present only raises its count, removing one lowers it, and the point vanishes from the triangulation exactly when its count reaches zero. Membership and number of points always agree with the history of insertions and removals, and lookups of the triangles around a point or containing a position are consistent with the triangles.",
 ["histories"],"every sequence of insertions (also repeated) and removals up to a depth over several alphabets",
 "The tests never insert a point twice or ask about membership after removals.",
 ["triangulation/incrdelaunay/delaunay.go","triangulation/incrdelaunay/grid.go"],[("counts per point","Insert, Remove"),("grid of triangles for lookups","grid.go, pointmap.go")],["membership, counts and triangles after every operation"])
p("C12","Copied triangulations are equal and independent",
 "After a triangulation is set to another one, it behaves exactly like it: the same triangles, points and multiplicities, and the same results of later operations. Operations on either of the two never affect the other, whatever either was used for before.",
 ["histories"],"every history of the source and of the destination before the copy, followed by every sequence of operations on either of them up to a depth; copies of copies; triangulations and Voronoi diagrams",
 "No test modifies a triangulation after copying it.",
 ["triangulation/incrdelaunay/delaunay.go","triangulation/incrdelaunay/voronoi.go","triangulation/incrdelaunay/grid.go"],[("deep copy of triangles, lookups and counts","Delaunay.Set, IVoronoi.Set")],["both triangulations after every operation"])
p("C13","Voronoi cells partition the image",
 "The Voronoi polygons produced for a set of points are, up to rounding, the convex regions of the image nearest to each distinct point: one per point, without overlap, and together covering the image exactly. The diagram maintained incrementally over insertions and removals equals the one computed from the final triangulation.",
 ["histories","inputs"],"every sequence of insertions and removals up to a depth over grid, collinear, cocircular, border and generic points, several image sizes, both ways of producing the diagram",
 "No test looks at Voronoi cells.",
 ["triangulation/incrdelaunay/voronoi.go"],[("circumcentres around a point","Voronoi, IVoronoi"),("clipping to the image, adding image corners","voronoi.go")],["the polygons, against half-plane clipping"])
p("C14","Polygonation gives one rounded cell per point",
 "Polygonating a group of points for an image gives exactly one polygon for each distinct pixel position of the points, whose corners are the corners of its Voronoi cell within the image rounded to the nearest pixel, in order and without equal neighbours in the list. The polygons lie within the image and together cover it up to that rounding.",
 ["inputs"],"every multiset of points over several alphabets and image sizes",
 "There is no test of polygonation.",
 ["polygonation/polygonate.go","triangulation/incrdelaunay/voronoi.go"],[("insert rounded points, round cell corners","Polygonate")],["the returned polygons, against half-plane clipping"])
p("C15","One-shot triangulation is a Delaunay triangulation",
 "Triangulating a group of points for an image returns triangles that form a Delaunay triangulation of the points rounded to pixels: corners at rounded points only, no overlap, no point inside a circumcircle, and covering the convex hull exactly. The polygon area helper returns the area of any simple polygon, rounded to the nearest integer, whatever the orientation or the first corner.",
 ["inputs"],"every set of points over several alphabets up to a size (at least three points that are not collinear), several image sizes; every simple polygon over a small grid",
 "The test triangulates one group and checks one number.",
 ["triangulation/triangulator.go"],[("rounding, triangulation, mapping indexes back","Triangulate"),("shoelace formula","Area")],["the returned triangles, against brute force"])
p("C16","Rasterization covers exactly the pixels of a triangle",
 "Rasterizing a triangle or convex polygon with integer corners reports, for each row from its top corner to just above its bottom one, exactly the pixels from its left border (rounded down) to just before its right border (rounded down), each once, whatever the order of the corners. Triangles that share borders therefore tile an area without gaps or double pixels.",
 ["inputs"],"every triangle over small grids in every order of corners, triangles of large and slender shapes, every convex polygon over small grids",
 "The tests rasterize a few triangles.",
 ["rasterize/lines.go","rasterize/pixels.go","rasterize/polygon.go","geom/polygon.go"],[("sort corners, walk both borders","DDATriangleLines"),("fan triangulation","Polygon.Triangulate, DDAPolygon")],["the pixels and lines reported"])
p("C17","Block rasterization covers the same pixels",
 "Rasterizing a triangle or polygon in blocks reports exactly the pixels that rasterizing it pixel by pixel reports, each once, either within a line or within a block (up to pixels between which a border passes exactly, where rounding may choose either). This holds for every block size from one up; all blocks lie fully inside the shape's bounding box.",
 ["inputs","configurations"],"every triangle over small grids in every order of corners, large triangles, and every block size from one to beyond the triangle",
 "The test compares the two on a few random triangles and block sizes.",
 ["rasterize/blocks.go","rasterize/polygon.go"],[("blocks in the middle, lines left and right","normalTriangleBlocks")],["the multiset of pixels"])
p("C18","Rendered triangles get the mean colour of their pixels",
 "Rendering triangles onto an image returns one entry per triangle, in order: the triangle's corners divided by the image size, and the mean colour of the image over exactly the pixels that the triangle covers. A triangle that covers no pixel gets the mean colour of the image at its corners, moved inside the image where they lie on its far border.",
 ["inputs"],"every triangle with corners in small images (borders included), lists of several triangles, several images",
 "The test renders one triangle onto a black image.",
 ["render/triangles.go","color/color.go"],[("average over rasterized pixels","TrianglesOnImage, AverageRGB"),("fallback to corners","TrianglesOnImage")],["the returned list"])
p("C19","Rendered polygons get the mean colour of their pixels",
 "Rendering polygons onto an image returns one entry per polygon, in order: the polygon's corners divided by the image size, and the mean colour of the image over exactly the pixels of the polygon. A polygon that covers no pixel gets the mean colour of the image at its corners, moved inside the image where they lie on its far border.",
 ["inputs"],"every convex polygon with three to five corners in small images, lists of several polygons, several images, the polygons of polygonations",
 "There is no test of polygon rendering.",
 ["render/polygons.go","geom/polygon.go","color/color.go"],[("average over the pixels of a fan of triangles","PolygonsOnImage")],["the returned list"])
p("C20","Image conversion keeps every pixel",
 "Converting an image gives data of the same size whose pixel in column x and row y, counted from the top left corner of the image's bounds, has the colour of the image there, with each channel as its 8-bit value divided by 255. This holds for every image type and for bounds with any origin, and the data keeps no link to the image.",
 ["inputs","configurations"],"every small size and origin (negative too), image types (RGBA, NRGBA, Gray, Paletted, YCbCr, 16 bit, sub-images), every 8-bit value of each channel",
 "The test only checks the size of an empty image.",
 ["image/rgbdata.go"],[("loop over pixels from the bounds' minimum","ToData"),("8-bit channels to [0,1]","convertColor")],["Size and RGBAt of the result"])
p("C21","Mutation methods report exactly the changes they make",
 "A mutation method changes only points that it reports, reports each at most once with its index, its true position before and its position after, keeps every point in the unit square, and leaves the number of points alone. A point is mutated exactly if its random draw lies below the rate, independently of the other points (never at rate zero and always at rate one), the default method mutates two points of a group on average, and each coordinate moves, before clamping to the unit square, by a random draw scaled by the amount: uniform within half the amount either way, or normal with half the amount as deviation.",
 ["inputs","histories"],"every group of up to several points at corners, borders and inside, every outcome of the random draws among representative values including extremes, several rates and amounts, both methods and the default",
 "The tests check rates zero and one with one seed.",
 ["mutation/gaussian.go","mutation/random.go","mutation/data.go","normgeom/normpoint.go"],[("draw, move, constrain, report","Mutate"),("clamping","Constrain")],["points and reported mutations under enumerated random draws"],None,
 "none: the random sources are replaced at build time")
p("C22","Generators return the requested points in the unit square",
 "Each generator returns exactly the requested number of points (none if none are requested), every coordinate between zero and one, and nothing of an earlier run remains in a later one. The random generator's points are independent uniform draws. The spaced generator starts with such points and in each of its iterations picks one point at random and shifts it by a uniform step in each direction, clamped to the unit square; it takes the move exactly if that increases the distance to the nearest other point. The width of the steps shrinks geometrically from one by a factor of fifty over the run.",
 ["inputs","configurations"],"every outcome of the random draws among representative values, small numbers of points and of iterations, also larger numbers for counts and ranges",
 "The tests only count the points of one run.",
 ["generator/random.go","generator/spaced.go"],[("append n random points","randomPoints"),("accept a move if the nearest neighbour gets farther","Generate")],["the points returned under enumerated random draws"],None,
 "none: the random source is replaced at build time")
p("C23","The random source stays in range and is reproducible",
 "Bounded integers are at least zero and below the bound, 32-bit floats at least zero and below one, 63-bit integers never negative, each evenly distributed over its range for evenly distributed source words, and all of them are determined by the seed: seeding again repeats the sequence. Normal deviates are the ones the ziggurat method of the standard library gives for the same underlying random words, and are finite for every such word.",
 ["inputs","histories"],"every value of the top and the low bits of the underlying word (each layer of the ziggurat with boundary values), chains of words for its retries, sequences of mixed calls after seeding",
 "The test averages ten thousand bounded integers.",
 ["random/random.go"],[("PCG source","Seed"),("ziggurat tables and retries","NormFloat64")],["the returned values under enumerated source words"],None,
 "none: the source package is replaced at build time for one part of the check")
p("C24","Output files hold the best points and the statistics",
 "The utilities that run an algorithm advance it by exactly the requested number of generations between reports. From each report to the next the output file holds the best point group of that report as JSON that decodes to exactly the same points, the statistics file one line with generation and best fitness per report, in order. A generated trace or profile is complete and well-formed.",
 ["histories","inputs"],"every number of repetitions and reports up to a bound, histories of best groups that grow and shrink in encoded length, coordinates whose decimal forms are long, several generations",
 "No test runs the utilities, and they run forever.",
 ["utils/output.go","utils/fitness.go","utils/trace.go"],[("step, marshal, rewrite the file, append a line","GenerateAlgorithmOutput"),("print statistics","RunAlgorithm"),("runtime trace to a file","GenerateTrace")],["files in a scratch directory after every report"])
p("C25","Value types compute exactly and keep no links",
 "Normalizing points, triangles and polygons divides each coordinate by the image's width or height; distances, differences and clamping to the unit square give the mathematical results; colour averages are the means of the colours added, in any order. Copies and sets of point groups are equal to the original and independent of it, setting a group to one of a different size is refused, and results hold no reference to what they were made from.",
 ["inputs"],"every point, triangle and polygon over small grids and sizes, every sequence of colours and coordinates over representative values (borders, outside, extreme), every group up to a size",
 "The tests try one value each.",
 ["geom/point.go","geom/triangle.go","geom/polygon.go","normgeom/normpoint.go","normgeom/normtriangle.go","color/color.go","algorithm/data.go"],[("ToNorm, DistSq, Sub, Constrain, Dist, Set, Copy, Add, Average","value types")],["returned values"])
p("C26","Valid configurations never fail",
 "For every image of at least one pixel (and at most 8191 a side, as coordinates have 16 bits), every positive block size, every number of points from three up, every cache size, every population and cutoff where the population is at least twice the cutoff, and points anywhere in the unit square, borders included, constructing and running the algorithms, both fitness functions, polygonation and rendering never panics or hangs. The default algorithm works for every image and number of points as well.",
 ["configurations","inputs","histories"],"every combination of small and odd image sizes, block sizes, numbers of points, cache sizes, populations and cutoffs, both algorithms and fitness functions, with mutations that pile points up at corners and borders, for several generations",
 "The tests run one configuration.",
 ["algorithm/modifiedgenetic.go","algorithm/simple.go","fitness/pixels.go","fitness/triangles.go","fitness/polygons.go","algorithm/evaluator/parallel.go","utils/default.go","triangulation/incrdelaunay/delaunay.go","polygonation/polygonate.go","render/polygons.go"],
 [("block data sized by the image","newPixelDataN"),("helper triangle sized by the image","NewDelaunay"),("cache sized by a power of two","NewParallel")],["completion of every run"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
