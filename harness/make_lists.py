"""Writes properties.jsonl and MANIFEST.json."""
import json
S="vspec_vsm/star.py"; P="vspec_vsm/spots.py"; F="vspec_vsm/faculae.py"; L="vspec_vsm/flares.py"; X="vspec_vsm/xoflares.py"; H="vspec_vsm/helpers.py"; G="vspec_vsm/coordinate_grid.py"; N="vspec_vsm/granules.py"
def p(id,title,statement,over,text,why,files,mech,observe,state=()):
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None))
out=[
p("C01","Coverage fractions partition the visible disk",
"For any star, observer, planet and granulation share in [0, 1], the total fractions of a coverage calculation are non-negative and sum to one, always list the quiet photosphere, and the covered fractions list the same temperatures. No covered fraction is negative or exceeds the total fraction of its temperature. This holds whatever the temperatures are, including features whose temperature equals the photosphere's or another feature's, and a photosphere that is wholly covered.",
["inputs","histories","configurations"],"every star reachable by construction, aging, adding, births and regridding; every observer position; every planet; grids of at least 4 latitudes or 20 points",
"The tests compute coverage for a handful of stars and compare a few values; they never mix coinciding temperatures, granulation and transits over histories.",
[S],[("calc_coverage",S+": Star.calc_coverage")],["Star.calc_coverage"],[("total/covered dictionaries","fraction of the disk per temperature",S)]),
p("C02","Fractions are the foreshortened, limb-darkened shares of the seen surface",
"The total fraction of a temperature equals the sum, over the surface points of that temperature in the map of spots and faculae seen by the observer, of area times cosine of the angle from disk center times quadratic limb darkening, divided by the same sum over all visible points. Points on the far side contribute nothing, and every temperature of the map is listed. The cosine, foreshortening and limb-darkening factors (with and without foreshortening) and the areas of the points a user can ask for are those same quantities.",
["inputs","configurations","histories"],"every grid, map, observer, limb-darkening pair for which the darkening stays positive, and granulation share",
"Tests fix one or two grids and mostly u1=u2=0 or symmetric maps, where wrong weights cancel.",
[S,G],[("calc_coverage weights",S+": Star.calc_coverage, area_projection_coefficient, ld_mask_for_plotting"),("cos_angle_from_disk_center",G)],["Star.calc_coverage","Star.get_mu","Star.ld_mask_for_plotting","Star.area_projection_coefficient"]),
p("C03","A planet covers exactly the surface behind its disk",
"In front of the star, the transit mask is zero for points on the far side or away from the planet's projected disk, one for points well inside it, between zero and one elsewhere, and its visible area matches the overlap of the two disks to the grid's resolution; behind the star or off the disk nothing is covered. The covered fraction of each temperature in a coverage calculation is the masked share of that temperature, where granulation moves the same share of the covered photosphere. The sky position of the planet follows its orbit radius, phase (180 degrees is mid-transit) and inclination, for every observer position including the poles.",
["inputs","configurations","histories"],"every orbit, planet no larger than the star, observer, grid and star radius",
"Tests check a central transit seen from one direction; off-center transits, inclined orbits, poles and secondary eclipses with masks are not reached.",
[S,H],[("get_transit_mask",S+": Star.get_transit_mask"),("proj_ortho",H)],["Star.get_transit_mask","Star.calc_coverage"]),
p("C04","The visible share of the planet is the geometric one",
"The visible share of the planet is one in front of the star, and behind it one minus the share of the planet's disk hidden by the stellar disk, from 1 (outside) continuously to 0 (totally eclipsed), always within [0, 1]. The disk-overlap function is the area of the planet inside the unit circle divided by the planet's area, for every position and every radius up to one, exact at both tangencies, and rejects larger radii.",
["inputs"],"every orbit radius, phase, inclination and planet radius no larger than the star; every circle center and radius in (0, 1]",
"Tests sample a few separations; errors near tangency, at other phases than 0 or for inclined orbits go unseen.",
[S,H],[("get_pl_frac",S+": Star.get_pl_frac"),("circle overlap",H+": calc_circ_fraction_inside_unit_circle")],["Star.get_transit_mask","Star.calc_coverage","helpers.calc_circ_fraction_inside_unit_circle"]),
p("C05","A spot grows to its maximum, then decays to nothing",
"A growing spot gains the fraction growth_rate per day (compounded) until it reaches its maximum area, then and ever after loses decay_rate per time; its area stays within [0, maximum] and it never grows again. Aging by any sequence of steps gives the same area and phase as aging once by their sum, a step that crosses the maximum included; a spot that is at its maximum starts to decay with its next step at the latest. Nothing else about the spot changes.",
["histories","inputs"],"every spot and every sequence of non-negative time steps, in any time unit",
"The tests age a spot a few times with fixed steps; the maximum is crossed at one point only.",
[P],[("StarSpot.age",P+": StarSpot.age")],["StarSpot.age","SpotCollection.age"],[("area_current, is_growing","state of the life cycle",P)]),
p("C06","A facula grows and shrinks over its lifetime",
"A growing facula's radius grows by a factor e per half lifetime until it reaches its maximum radius and then shrinks at the same pace; the radius stays within (0, maximum] and a shrinking facula never grows again. Aging by any sequence of steps gives the same radius and phase as aging once by their sum, and a facula at its maximum starts to shrink with its next step at the latest. Nothing else about the facula changes.",
["histories","inputs"],"every facula and every sequence of non-negative time steps",
"The tests age one facula once or twice.",
[F],[("Facula.age",F+": Facula.age")],["Facula.age"],[("radius, is_growing","state of the life cycle",F)]),
p("C07","Populations lose exactly the dead and keep the rest in order",
"Aging a star or a collection ages every spot and facula by the same time, and removes exactly the decaying spots with no area left and the decaying faculae at or below 1/e^2 of their maximum radius; all others stay, in their order, each once. Adding features (one, a list or a tuple, through the star or the collection), births and mature spots append to what is there and change nothing else (no parameter of the star, no quantity given); regridding changes no population.",
["histories"],"every history of aging, adding, births, mature spots and regridding",
"Tests age and add in isolation with one or two features.",
[P,F,S],[("clean_spotlist",P),("clean_faclist",F),("Star.age/add_spot/add_fac/birth_*",S)],["Star.spots.spots","Star.faculae.faculae"]),
p("C08","Every surface point shows the coolest spot that covers it",
"The spot map has, at every grid point, the lowest of the photosphere's temperature and the temperatures of the umbrae and penumbrae whose circles contain the point. A spot is the spherical cap with the spot's area, and its umbra is concentric with an angular radius smaller by the square root of the total-to-umbra area ratio; a spot whose umbra and penumbra have one temperature is a plain cap. The map does not depend on the order in which spots were given, and the reported spot coverage is the share of the surface area inside at least one spot.",
["inputs","histories","configurations"],"every set of spots (overlapping, at poles, across the date line, larger than a hemisphere; umbrae no warmer than their penumbrae), every grid",
"Tests map one or two separate spots on one grid.",
[P],[("StarSpot.map_pixels, SpotCollection.map_pixels, get_coverage",P)],["Star.map","SpotCollection.map_pixels","SpotCollection.get_coverage"]),
p("C09","Faculae change only their points, split into wall and floor by angle",
"Painting faculae leaves every point outside them as it was; a point inside shows the wall or floor temperature (photosphere plus the rounded excess, kept within the allowed range) of the last facula containing it. The share of wall is what the floor's disk, displaced by depth times the tangent of the angle from disk center, leaves free, or everything when the facula is smaller than the radius at which floors appear; the points nearest the limb are wall. Reported wall and floor areas are these shares of the facula's foreshortened area. A collection's map of its faculae gives every point of the quiet photosphere the number of the last facula containing it, and no number to any other point.",
["inputs","histories","configurations"],"every facula, observer angle, map and grid; wall and floor temperatures that differ after rounding",
"Tests look at one facula from one or two angles.",
[F,S],[("effective_area, fractional_effective_area, map_pixels",F),("add_faculae_to_map",S)],["Star.add_faculae_to_map","Facula.effective_area","Facula.fractional_effective_area"]),
p("C10","Star, collections and features always share one grid",
"After construction, adding, births, aging or regridding, every spot and facula of a star or collection is drawn on that star's or collection's grid: the same grid object parameters, the right shape, and the points that lie within the feature on that grid. This holds whichever grid (rectangular or spiral) the feature, its collection or the generator was built with.",
["histories","configurations"],"every mixture of grids of features, collections, generators and star, and every history of adding and regridding",
"Tests use one grid for everything or check one transfer.",
[P,F,S,G],[("set_gridmaker, add_spot, add_faculae",P+", "+F),("Star.__init__, set_spot_grid, set_fac_grid",S)],["StarSpot.map_pixels","Facula.map_pixels","Star.map"]),
p("C11","Grids place points evenly and their areas sum to one",
"A grid built from an integer is a spiral of that many points of equal area, one built from two integers a rectangular grid with that many latitudes from pole to pole and longitudes over the full circle, each point weighted by the cosine of its latitude; areas are non-negative and sum to one, coordinates stay in [-90, 90] and [0, 360] degrees, and every array has the grid's shape. The cosine from disk center is that of the great-circle angle to the observer. Two grids are equal exactly when they are of the same kind with the same parameters, and other arguments are rejected.",
["inputs","configurations"],"every number of points and every pair of at least 3 latitudes and 1 longitude; every observer",
"Tests build two or three sizes.",
[G],[("RectangularGrid, SpiralGrid, CoordinateGrid.new",G)],["CoordinateGrid.new","grid","area","cos_angle_from_disk_center","=="]),
p("C12","Births follow the requested coverage, places and parameters",
"The expected number of births in a time is the requested coverage times the stellar surface over the mean area of a feature, times the time over its mean lifetime (zero for static spots or no coverage), and counts scatter around it as a Poisson variable. Newborn spots start growing at the initial area with the generator's temperatures and rates, faculae start growing at 1/e^2 of their maximum radius with the generator's parameters. Maximum areas of spots scatter lognormally around the generator's, their total-to-umbra ratios are 5 +- 1, and the radii and lifetimes of faculae scatter lognormally and together: a facula that is larger by some standard deviations lives longer by as many. Latitudes and longitudes are uniform over the sphere, or for the solar distribution 15 +- 5 degrees in both hemispheres. Asking for n features makes n.",
["inputs","histories"],"every generator, stellar radius, time step and seed",
"Tests draw from one generator and check loosely; wrong rates, distributions or per-call effects pass.",
[P,F,S],[("get_n_spots_to_birth, birth_spots, generate_spots, mean_area, mean_lifetime",P),("get_n_faculae_expected, birth_faculae, generate_faculae",F),("birth_spots, birth_faculae",S)],["SpotGenerator","FaculaGenerator","Star.birth_spots","Star.birth_faculae"]),
p("C13","Mature spots reach the target coverage and stop",
"Generating mature spots for a coverage in [0, 1] yields spots whose solid angles (pi times the squared angular radius) together reach 4 pi times the coverage, while without the last spot they do not; coverage 0 yields none and coverages outside [0, 1] are rejected. Each spot is at some stage of its life: a positive maximum area and an area between 0 and that maximum (for static generators between the initial and the maximum area), with the generator's temperatures and rates. Every stage is as likely as any other: the age is uniform from birth to the mean lifetime (the area of static spots uniform between its limits), and places and maximum areas are distributed as at births.",
["inputs","histories"],"every generator, stellar radius, coverage and seed",
"Tests ask for one coverage and one seed.",
[P,S],[("generate_mature_spots",P+", "+S)],["SpotGenerator.generate_mature_spots","Star.generate_mature_spots"]),
p("C14","The same seed gives the same star in every run",
"Two runs with the same seeds and the same calls give bitwise the same populations, flares, granulation and coverage, in other processes, in another order relative to unrelated stars, and with another hash seed. The random generators given to the objects are the only source of randomness and are left in the same state.",
["histories","schedules"],"every sequence of births, mature spots, aging, flares, granulation and queries",
"Tests run once in one process.",
[P,F,L,N,S],[("rng passed through all generators",P+", "+F+", "+L),("jax PRNG key from the seed",N)],["all generators"]),
p("C15","Flare series follow the energy law, in time order",
"The rate of flares above an energy is 10^beta times energy^alpha, the expected number is rate times time, and the energies' cumulative distribution, density and quantiles belong to that law above the minimum energy and to each other; quantiles outside [0, 1) are rejected. A generated series has a Poisson number of flares with that mean, energies at or above the minimum that follow the law, places uniform over the sphere, positive durations, and strictly increasing positive peak times; switched off it has none. A star that is observed anew holds the new series in place of the old one.",
["inputs","histories"],"every generator (slope, norm, minimum energy, cluster size, widths, temperatures), observation length and seed",
"Tests compare one generator at a few energies and do not test distributions.",
[L,S],[("FlareGenerator",L),("get_flares_over_observation",S)],["FlareGenerator.*","Star.get_flares_over_observation"]),
p("C16","A time window reports every visible flare with its integrated area",
"For a window and an observer, every flare that emits during the window and lies on the visible hemisphere is reported exactly once, none on the far side is, and each has its temperature and the integral of its area over the window, up to ten-minute sampling. Consecutive windows add up to the whole. The collection's list of peak times and widths and its mask of active flares are those of its flares. Without an observer the default sub-observer point (0, 0) is used, and star and flare collection agree.",
["inputs","histories","configurations"],"every set of flares, window (short or long, before, during, after a flare, starting or ending inside it), observer",
"Tests use one flare and one wide window.",
[L,S],[("mask, get_visible_flares_in_timeperiod, get_flare_integral_in_timeperiod",L),("get_flare_int_over_timeperiod",S)],["FlareCollection.get_visible_flares_in_timeperiod","get_flares_in_timeperiod","get_flare_integral_in_timeperiod","Star.get_flare_int_over_timeperiod"]),
p("C17","A flare radiates its energy along the empirical light curve",
"The emitting area of a flare follows the published rise and double-exponential decay in units of its FWHM around its peak time, is never negative and never above its peak, and is zero before one and after twenty widths. The peak area is such that a blackbody of the flare's temperature radiates exactly its energy over the curve. The time-area over given times is the trapezoidal integral of that curve.",
["inputs"],"every flare (energy, width, temperature, peak time, in any units) and sampling times",
"Tests check one flare at its peak.",
[L,X],[("calc_peak_area, areacurve, get_timearea",L),("_flaremodelnp, _flareintegralnp",X)],["StellarFlare.areacurve","StellarFlare.calc_peak_area","StellarFlare.get_timearea"]),
p("C18","Granulation coverage is a bounded, seeded process around its mean",
"For any times, granulation coverage has one value in [0, 1] per time, the same whenever it is asked with the same seed and another with another seed, and follows (before the bounds apply) a Gaussian process with the given mean and the kernel of the given amplitude and period: times that are close get coverages that are close, and without amplitude the coverage is the mean. A star whose granulation has no temperature contrast, or mean and amplitude zero, reports no granulation.",
["inputs","histories"],"every mean in [0, 1], amplitude from zero up, period, seed and array of times (unordered, repeated, much closer than the period)",
"Tests draw one series.",
[N,S],[("Granulation.get_coverage, build_gp, kernel",N),("get_granulation_coverage",S)],["Granulation.get_coverage","Star.get_granulation_coverage"]),
p("C19","Questions do not change the star",
"Maps, coverages, masks, averages, angles, facula splits, window integrals and granulation series leave populations, parameters, grids, random generators and the arguments they are given as they were, and the maps, masks and fractions they return are the caller's own to change. A history with any such questions inserted anywhere ends, bit for bit, where the same history without them ends.",
["histories","schedules"],"every history and every insertion of queries into it",
"Tests query once and then throw the star away.",
[S,P,F,L,N],[("queries compute without assigning",S)],["state before and after each query; twin histories"]),
p("C20","Results do not depend on the units of the arguments",
"Giving the same physical quantities in other units (areas, lengths, times, angles, energies, rates, temperature slopes) gives the same results up to rounding, everywhere in the library: features and their lives, maps, coverages, transits, births, flares. One MSH is a millionth of the visible solar hemisphere, 2e-6 pi R_sun^2.",
["inputs","configurations"],"every choice of units for every argument of every call",
"Tests use the units the code was written with.",
[S,P,F,L,"vspec_vsm/config.py"],[("unit conversions",S+", "+P+", "+F+", "+L),("MSH","vspec_vsm/config.py")],["all public results"]),
p("C21","Turning star and observer together changes nothing",
"On a rectangular grid, shifting all longitudes (spots, faculae and observer) by a whole number of grid steps shifts the spot map, the map with faculae and the transit mask by that number of steps and leaves all coverage fractions, spot coverage, planet visibility and the average temperature unchanged. This includes observers over a pole and longitudes beyond 360 degrees or below 0.",
["inputs","configurations","histories"],"every rectangular grid, shift, set of spots, faculae clear of the poles, generic observer, planet",
"Tests look from one longitude.",
[S,P,F,H,G],[("angles enter through differences of longitudes",H+", "+G)],["Star.map","add_faculae_to_map","get_transit_mask","calc_coverage","average_teff"]),
p("C22","The average temperature is the fourth-power mean of what is seen",
"The average effective temperature seen by an observer is the fourth root of the coverage-weighted mean of the fourth powers of the temperatures of that observer's coverage calculation, for every star and observer. It therefore lies between the lowest and the highest temperature seen.",
["inputs","histories"],"every star, history and observer",
"The existing test covers a featureless star.",
[S],[("average_teff",S)],["Star.average_teff"]),
p("C23","Granulation only moves photosphere to its cooler temperature",
"With granulation share g, a coverage calculation differs from the one without only in that the share g of the quiet photosphere, in the total and in the covered fractions, moves to the temperature lower by the granulation's contrast, added to whatever already has that temperature. With zero contrast nothing changes; the planet's visibility never changes.",
["inputs","histories"],"every star, g in [0, 1], contrast, observer and planet",
"Tests use one share with one contrast.",
[S],[("calc_coverage, granulation",S)],["Star.calc_coverage"]),
p("C24","Display resampling keeps axes, units and values",
"Resampling data for display returns latitude and longitude axes of a rectangular grid of the requested size, an array of shape (longitudes, latitudes) with the unit of the data, and only values within the range of the data. From a rectangular grid of the same size the data come back unchanged (another size is rejected); from a spiral each value is the mean of the data weighted by a Gaussian of the angular distance with the variance scale of one point's solid angle, so constants stay constant.",
["inputs","configurations"],"every grid, data, unit and display size",
"Tests check the shape of one result.",
[G],[("display_grid",G)],["CoordinateGrid.display_grid"]),
p("C25","A group of flares shines as the sum of its members, averaged over exposures",
"The light curve of any number of flares, given by peak time, width and height, is at every time the sum of the heights times the single-flare curve. With an exposure time it is at every time the mean of that curve over equally spaced times from half an exposure before to half an exposure after (an odd number of them, the requested one or the next), so it never leaves the range the curve has there. There is one value per time, whatever the order of times or flares.",
["inputs","configurations"],"every group of flares, exposure, number of samples and sequence of times",
"Tests look at one flare without exposures.",
[X],[("get_light_curvenp, multiflaremodelnp, _flaremodelnp",X)],["xoflares.get_light_curvenp"]),
p("C26","Angles and sky positions are those of the sphere",
"The angle between two places, single or many at once, is the great-circle angle: within [0, 180] degrees, the same both ways, zero for a place and itself, 180 degrees for its opposite. The sky position of every point on the hemisphere an observer sees is its orthographic projection, at the sine of its angle from disk center, with north up; points of the far side have none. Both hold for every latitude including the poles, and for every longitude, also outside [0, 360) degrees.",
["inputs","configurations"],"every two places, observer and grid, in every angular unit",
"Tests use a few generic positions; rounding at coincident, opposite and polar places is not reached.",
[H],[("get_angle_between, proj_ortho",H)],["helpers.get_angle_between","helpers.proj_ortho"]),
p("C27","The hemisphere share of a spot follows its angle from disk center",
"The share of the visible hemisphere covered by a spot is the integral of the cosine of the angle over the circle of the spot, cut at the limb, over 2 pi, up to the number of sample points; it is a finite non-negative number, zero for a spot wholly behind the limb, and depends on the observer only through the spot's angle from disk center. It is defined for every observer, right above and opposite the spot included, throughout the spot's life.",
["inputs","histories"],"every spot, stellar radius, observer and number of sample points of at least 50",
"Tests evaluate one spot from one or two directions.",
[P],[("StarSpot.surface_fraction, angular_radius",P)],["StarSpot.surface_fraction"]),
p("C28","A refused call changes nothing",
"Coverages outside [0, 1], things that are no spots or faculae (alone or after good ones in a list), planets behind the star that are larger than it and quantities of the wrong kind (a length for a time, text, nothing) are refused by an exception where the library refuses them, and then the star is as if the call had not been made: same populations, parameters and grids, same random generators, same future. Coverages out of range, things that are no features and planets too large to pass behind the star are always refused.",
["histories","inputs"],"every history with refused calls inserted anywhere",
"Tests check at most that a call raises, not what it leaves behind.",
[S,P,F,L],[("checks before changes in generate_mature_spots, add_spot, add_faculae, age, birth_*",P+", "+F+", "+S)],["state before and after each refused call; twin histories"]),
p("C29","Stars do not know of each other",
"What happens to one star (changes, births, flares, questions) never affects another star of the same program, however the calls are interleaved and however similar the stars are, including stars built from defaults: every star's states and answers are bit for bit what they are when each star's calls run on their own.",
["schedules","histories"],"every two stars and every interleaving of their calls",
"Tests build one star at a time; shared defaults, caches and class attributes go unnoticed.",
[S,P,F,L,N,G],[("no shared mutable defaults; all state on the instances",S+", "+P+", "+F+", "+L+", "+N)],["all public results of two interleaved stars"]),
p("C30","A copy of a star is the same star with its own future",
"A star deep-copied or pickled and restored at any moment of its history has the same populations, parameters, grids and random generators as the original, copying changes nothing, and from then on copy and original give bit for bit the same states and answers to the same calls; calls on one of the two never affect the other.",
["histories"],"every history and every moment at which a copy is made",
"Tests never copy a star; lost or shared state of a copy goes unnoticed.",
[S,P,F,L,N,G],[("all state lies in plain attributes of the instances",S+", "+P+", "+F+", "+L+", "+N+", "+G)],["all public results of a copy and its original"]),
p("C31","A star aged in parts is the star aged at once",
"For a star with no births due (generator coverages 0), aging it by several steps gives the spots and faculae (positions, sizes, phases, order, who is left) and maps that one step over the total time gives, however the time is split, and asking about the star between the steps makes no difference. (A feature within rounding of a turning point or of its end is excepted.)",
["histories","inputs"],"every star and every partition of a time span",
"Tests age a star by one or two fixed steps and never compare partitions.",
[S,P,F],[("StarSpot.age, Facula.age, SpotCollection.age, FaculaCollection.age, Star.age",S+", "+P+", "+F)],["Star.age and the maps after it"]),
p("C32","The mirror image of a star is seen as the mirror image",
"On a rectangular grid, a star with spots, faculae, observer and planet mirrored north-south, east-west or both has the mirrored maps and masks and the same coverage fractions, mean temperatures and transit fractions. (Grid points within rounding of a feature's edge and faculae over a pole of the grid are excepted.)",
["inputs"],"every star, observer and planet",
"Tests place features at one or two positions, usually on one side of the equator and of the meridian.",
[S,P,F,H],[("signs of latitude and longitude in map_pixels, get_mu, proj_ortho, planet position",P+", "+F+", "+H+", "+S)],["map_pixels; add_spots/faculae maps; get_pl_frac; calc_coverage; average_teff"]),
p("C33","Only ratios of lengths matter",
"Multiplying every length given (stellar radius, spot areas and decay rates, facular radii, depths and floor thresholds, planet radius and orbit, with temperature slopes per length divided accordingly) by one factor leaves maps, masks, coverage fractions, mean temperatures and transit fractions the same through any history of aging, births, additions and grid changes, random draws included.",
["inputs","histories"],"every star, history and factor",
"Tests use one or two stellar radii; a forgotten radius or an absolute length goes unnoticed.",
[S,P,F],[("radius passed to maps, generators and transit functions; no absolute lengths",S+", "+P+", "+F)],["map_pixels; generators; calc_coverage; get_pl_frac"]),
]
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in out))
import sys
try:
    import jsonschema
    sch=json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for x in out: jsonschema.validate(x,sch)
except ImportError: print("nojs")
M={"version":1,"setup_cmd":"python3 harness/setup.py","checks":[],"not_applicable":[],
 "notes":"TLA+ specification in spec/, checked with TLC; java/ holds IEEE-double arithmetic for TLC. harness/check.py decides a property: TLC on the property's model (Inv_Cxx), replay of the model's histories and of random scenarios on /repo, and TLC on the recorded traces (spec/Trace.tla, clauses Cxx of spec/Clauses.tla). No hooks in /repo."}
MOD=dict(C04="MC_Planet",C05="MC_Life",C06="MC_Life",C11="MC_Grid",C24="MC_Grid",C12="MC_Gen",C13="MC_Gen",C14="MC_Gen",C15="MC_Flare",C16="MC_Flare",C17="MC_Flare",C18="MC_Gran",C25="MC_Flare",C26="MC_Grid",C27="MC_Life",C29="MC_Two")
STAT={"C12","C15","C18"}
for x in out:
    i=x["id"]; m=MOD.get(i,"MC_Star")
    note=f"TLC explores spec/{m}.tla exhaustively to a fixed depth over the catalog and checks Inv_{i}; its histories and seeded random scenarios run on the real code, and TLC judges every recorded step by the clauses {i} of spec/Clauses.tla. Bounded by catalog, depth and sampled inputs; trusts java/Num.java (IEEE doubles) and the executor harness/vsm.py."
    if i in STAT: note+=" Distributions are judged by moments with bounds of more than six standard deviations."
    M["checks"].append(dict(property=i,quick_cmd=f"python3 harness/check.py {i} quick",thorough_cmd=f"python3 harness/check.py {i} thorough",evidence_file=f"evidence/{i}.json",
      technique=f"TLA+ specification: TLC model checking of {m} + replay of its histories and random scenarios on the code with TLC trace validation",level="model_checking",level_note=note))
json.dump(M,open("/verif/MANIFEST.json","w"),indent=1)
