"""Registry of the checks."""
CHECKS = {
    "C05": dict(src=["c05.cpp"], space="every cell of a family of axes x 16 positions of the cell x 7 turns x neighbouring doubles"),
    "C08": dict(src=["c08.cpp"], space="every pattern of undefined nodes of every cell of small grids, for 1 to 3 constituents, x kinds of undefined values x positions of the cell"),
    "C07": dict(src=["c07.cpp"], space="grids (axes x directions x storage x precision) x every cell x positions x turns"),
    "C06": dict(src=["c06.cpp"], space="lists of points: size x start x step x direction x (defect kind, position) x seam position x cover"),
    "C15": dict(src=["c15.cpp"], space="75 constituents x every case variant x every one-character edit with any byte x all strings up to 3 characters; every way to designate each constituent"),
    "C16": dict(src=["c16.cpp"], space="lists: singletons, pairs, complements, rotations, all subsets of a family, all orders, repetitions, unknown names at every position; for each every position, identifier and name"),
    "C17": dict(src=["c17.cpp"], mode="plain", space="dates (every 2.5 days of 90 years x times of day, crossings, midnights) x formulae x leap seconds; all two- and three-step histories of a family of dates"),
    "C18": dict(src=["c18.cpp"], mode="plain", space="75 constituents x dates every 4.25 days over 44 years x formulae"),
    "C25": dict(src=["c25.cpp"], lib=False, space="lattice of angles and its neighbouring floating point numbers x interval starts x circles x float/double; all pairs of integers of a family; degrees by 1/8 over +-4 turns"),
    "C14": dict(src=["c14.cpp"], mode="plain", space="all 8192 subsets of the constituents that have spectral lines x dates x latitudes; each of the 75 constituents alone x other flags; all pairs of steps; dates over 90 years x formulae"),
    "C13": dict(src=["c13.cpp"], mode="plain", space="all subsets of the 19 inferable constituents ; majors one component at a time x scales x earlier contents; flags on every other constituent; histories of three steps"),
    "C12": dict(src=["c12.cpp"], mode="plain", space="state (absent, provided, provided and excluded, declared dynamic, excluded) of each of 75 constituents x 6 backgrounds; all pairs of constituents x 16 states; all 3^7 states of the majors; subsets of the 13 constituents with equilibrium lines and of the 19 inferable ones; undefined positions"),
    "C26": dict(src=["c26.cpp"], space="tables (full, each single constituent, all pairs, complements, subsets in every order) x formulae x orders of dates x storage layouts x thread counts; all histories of three readings; numbers of positions x threads"),
    "C19": dict(src=["c19.cpp"], mode="plain", space="each constituent and all separable pairs x amplitudes x samplings; all subsets of ten separable constituents x units over 40 decades; series lengths; an undefined value at every place; all shapes up to 5x3; durations around the period of every constituent x factors"),
    "C09": dict(src=["c09.cpp"], space="families of triangulations (grids, fans of 3 to 20 triangles, graded, thin, islands, irregular) x 10 places (date line, high latitudes, scales) x 6 numberings/orientations/longitude ranges x a barycentric lattice of every triangle and a frame x whole turns"),
    "C10": dict(src=["c10.cpp"], mode="plain", space="triangulations of C09 x LGP1 and LGP2 x float/double x linear, quadratic and arbitrary nodal fields x a barycentric lattice of every triangle (edges, vertices and middles included) x whole turns; elements of a metre to 100 m"),
    "C11": dict(src=["c11.cpp"], mode="plain", space="triangulations of C09 x LGP1 and LGP2 x float/double x fields x extrapolation distances (none, short, long, and around the distance of the nearest vertex) x positions outside: along every edge at several distances, beyond every vertex, a frame, not numbers; x whole turns"),
    "C20": dict(src=["c20.cpp"], space="axes (sizes x steps x starts x directions x circular); triangulations of C09; models (grids of both storage orders, LGP1, LGP2, float/double, radial, extrapolating) in every state reached by any sequence of 4 operations, saved and restored after each of them, and all further operations"),
    "C21": dict(src=["c21.cpp"], space="axes, meshes and models with 0 to 3 constituents: states cut at every byte; unrelated texts of every length up to 80 and around the length of the state; states torn at every byte and every block with another content or zeros, then used"),
    "C22": dict(src=["c22.cpp"], space="grids and element models x all sequences of 4 operations out of 12 (additions by name and identifier, repeated, wrong sizes, unknown names, clearing); all data sizes; codes of vertices and elements in any order and range; the 75 constituents from every starting point in both orders"),
    "C23": dict(src=["c23.cpp"], space="all combinations of argument sizes x threads for predictions (with counting, grid and element models), series, maps, modulations, analyses; every vertex number at every place of a mesh; every code at every place"),
    "C02": dict(src=["c02.cpp"], mode="sched", rt=["schedrt.cpp"], space="every schedule within a preemption bound of parallel loops: sizes 0 to 5 x threads 0 to 5 x processors reported; all subsets of failing indices; every thread refused; sizes 0 to 40 x thread counts; predictions with a model that fails"),
    "C01": dict(src=["c01.cpp"], mode="sched", rt=["schedrt.cpp"], space="every schedule within a bound of predictions: grids, LGP1, LGP2 (float/double, ocean/radial, extrapolating or not) x 4 orders of positions and dates (undefined ones included) x 1 to 7 points x thread counts and processors reported"),
    "C03": dict(src=["c03.cpp"], mode="sched", rt=["schedrt.cpp"], space="all sequences of three of ten reading operations x tables x states; every schedule within a bound of all pairs and triples of them on one table"),
    "C04": dict(src=["c04.cpp"], mode="plain", space="all sequences of three (four in thorough) positions per accelerator x models x meshes and grids; all sequences of four dates x tolerances x formulae; triples of (position, date) per prediction call"),
    "C24": dict(py="c24.py", space="all boundaries of six tables x ten units x eight shapes; all arrays of four of seven dates; table in place x answer x answer in another process; answers cut at every byte (stepped in quick); write limits; process ended at each point of the refresh; two refreshes at the same time, one stopped at its points (all in thorough) while the other runs to its own or its end"),
    "C27": dict(py="c27.py", src=["c27lib.cpp"], mode="shared", space="model kinds x tide type x precisions x storage orders x square and other grids x directions x phase units x masks x names x dynamic lists x environments; files in different units; pairs of sections; every single defect of a configuration or file; all environments of three variables over seven values"),
    "C28": dict(py="c28.py", src=["pyref.cpp"], mode="pycore", space="10 model kinds and precisions x 8 settings x 5 thread counts x 3 ways of calling; all pairs of representations (12 to 17 each) of the four arrays of the tide; sequences of 12 model operations and 19 table operations to depth 2 (3); tables x formulae x 12 date layouts; 45 calls x each argument x 68 wrong values; all orders of release of four related objects",
        note="Exhaustive within the stated bounds, on the real bindings and package. pybind11 is not available: harness/mini/pybind11 stands in for it (it passes the repository's Python tests that need no file) and is trusted, as are the library called directly, decided by the other checks, the compiler and the sanitizer."),
    "C29": dict(py="c29.py", src=["pyref.cpp"], mode="pycore", space="all days 1901-2038; all seconds of 4 (10) days; microseconds of 5 seconds by 13 (1); months of years 1 to 9999; for 10 units every count near 0, powers of 2 and 10 and dates over the range x 10 layouts; 14 instants x 3 formulae x all units end to end; NaT at 5 positions x units x tolerances",
        note="Exhaustive within the stated bounds, on the real bindings and package. Trusts harness/mini/pybind11 (stand-in of pybind11), Python's calendar and rational arithmetic, the compiler and the sanitizer."),
    "C30": dict(py="c30.py", src=["c27lib.cpp"], mode="shared", space="34 waves alone x 3 meshes x 32/64 bits x masks; all pairs in both orders; subsets of 7 waves in all orders (part of them in quick); names of files and folders; every single entry of the mesh of one of three files changed in four ways; unknown names",
        note="Exhaustive within the stated bounds, on the real command and configuration module. netCDF4 is not available: the check stands in for it and is trusted, as are Python, numpy and the library loaded, decided by the other checks."),
}
NOT_APPLICABLE = {}
