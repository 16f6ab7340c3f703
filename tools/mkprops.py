import json
S='soil_simulator/'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=[S+f for f in files],
        state=[dict(name=a,meaning=b,where=S+c) for a,b,c in state],
        mechanism=[dict(name=a,where=S+b) for a,b in mech],
        observe_at=observe,hook_needed=None)))
Z='Heights are multiples of the cell height, the repose angle allows at least one cell of height difference, the body stays at least two cells inside the grid and moves at most two cells per update.'
p('C01','Soil volume is conserved by every operation',
 'The number of soil cells (terrain plus soil resting on the body) is the same before and after every simulation step and after every phase of a step: updating the carried soil, pushing soil out of the body, and relaxing terrain and body soil. The only permitted loss is soil resting on the body for which no room could be found, and then a warning is logged in the same step; soil is never created.',
 ['histories','schedules','configurations'],
 'Every history of body motions of bucket and blade, every random order of the avalanches, every valid configuration of walls and soil around a moving column.',
 'Tests check the volume on a few hand written columns and one random order (fixed seeds); a leak in one combination of wall slot, partial space, entry amount and direction order is not sampled.',
 ['relax.cpp','intersecting_cells.cpp','body_soil.cpp','soil_dynamics.cpp'],
 [('Relaxation moves what it removes','relax.cpp:RelaxUnstableTerrainCell/RelaxUnstableBodyCell'),('Intersecting soil is redistributed','intersecting_cells.cpp'),('Carried soil is re-deposited','body_soil.cpp:UpdateBodySoil')],
 ['SoilDynamics::Step','RelaxTerrain','RelaxBodySoil','MoveIntersectingCells','UpdateBodySoil'],
 [('terrain_','height of the terrain','types.hpp:SimOut'),('body_soil_','soil resting on the two wall layers','types.hpp:SimOut')])
p('C02','Every update leaves a geometrically valid state',
 'After every simulation step, everywhere in the grid: the terrain does not rise above the underside of the body, walls have positive thickness and the two walls of a cell neither overlap nor touch, soil rests exactly on top of a wall that is present in that cell, soil thickness is never negative, and soil does not overlap the other wall. All heights stay multiples of the cell height. '+Z,
 ['histories','schedules','configurations'],
 'Every bounded history of body poses (translation, pitch, yaw, roll; bucket and blade) over several terrains and every bounded set of deviations of the random orders.',
 'Tests assert heights of single phases; validity after chains of phases (move, follow, push out, avalanche several times) depends on histories they do not run.',
 ['soil_dynamics.cpp','relax.cpp','intersecting_cells.cpp','body_soil.cpp','body_pos.cpp'],
 [('Phases run in an order that restores validity','soil_dynamics.cpp:Step'),('Avalanches are limited by the space below a wall','relax.cpp')],
 ['SoilDynamics::Step'],[('body_','two wall layers per cell','types.hpp:SimOut')])
p('C03','The list of soil carried by the body matches the soil layers',
 'At every moment between phases, for every wall layer of every cell the amounts recorded in the list of carried soil add up to the thickness of soil in that layer, and no recorded amount is negative or refers to a place without soil. A record created when soil lands on the body holds, in the body frame, the centre of the cell it landed in and the height of the wall top there, for every pose of the body.',
 ['histories','schedules','configurations'],
 'Every bounded history, every random order, and every pose out of a set of rotated and translated poses.',
 'The list and the layers are updated by more than twenty separate branches; a wrong amount or position in one branch only shows when the body moves later.',
 ['relax.cpp','intersecting_cells.cpp','body_soil.cpp','utils.cpp'],
 [('New record pushed by every branch which deposits soil','relax.cpp, intersecting_cells.cpp'),('Inverse rotation to the body frame','utils.cpp:CalcBodyFramePos')],
 ['SimOut::body_soil_pos_ after each phase'],[('body_soil_pos_','list of carried soil','types.hpp:SimOut')])
p('C04','Terrain avalanches follow the repose rule',
 'In a terrain relaxation pass, soil moves from a column to a side neighbour exactly when the height difference exceeds the one allowed by the repose angle and the neighbour has room: onto the terrain (limited by the underside of a wall above it) or, when a wall sits on that terrain, onto the lowest wall with room above it, topmost otherwise. The amount moved leaves the higher column at the midpoint allowed by the repose angle rounded down to a cell, less if there is less room, and nothing else changes.',
 ['inputs','schedules','configurations'],
 'Every source height, every valid neighbour column (no wall, one wall in either slot, two walls in either order, any soil on them) within a height range, every combination of neighbours and every random order of cells and directions.',
 'About thirty hand picked columns are tested, each with one allowed height difference, one cell size and one random order.',
 ['relax.cpp'],
 [('First selection of unstable cells','relax.cpp:LocateUnstableTerrainCell'),('Classification of the neighbour','relax.cpp:CheckUnstableTerrainCell'),('Movement','relax.cpp:RelaxUnstableTerrainCell')],
 ['RelaxTerrain'])
p('C05','Soil resting on the body avalanches by the same rule',
 'In a relaxation pass of the soil carried by the body, each record moves soil to a side neighbour exactly when the top of its soil exceeds the neighbour by more than the repose angle allows and there is room: the neighbour is the terrain when the source wall is below the wall standing there or there is no wall, otherwise the wall reached from the source height. The amount follows the midpoint rule rounded down to a cell, never exceeds the amount of the record nor the room under a wall, and an emptied layer is marked as absent.',
 ['inputs','schedules','configurations'],
 'Every source wall height, soil amount and split in records, every valid neighbour column, both wall layers on both sides, every random order of directions.',
 'Tests sample this 1 300 line decision table with single hand written neighbours.',
 ['relax.cpp'],
 [('Classification of the neighbour','relax.cpp:CheckUnstableBodyCell'),('Movement','relax.cpp:RelaxUnstableBodyCell')],
 ['RelaxBodySoil'])
p('C06','Reported equilibrium is real and relaxation settles',
 'When a relaxation pass or a step reports equilibrium, no soil moved in the last pass and no column of terrain or carried soil in the simulated area can still avalanche. A pass over a state at rest changes nothing, and repeating passes from any terrain reaches equilibrium after finitely many passes whatever the random orders.',
 ['schedules','inputs','histories'],
 'Every small terrain and every random order: complete state graph of the relaxation, checked for stability of terminal states and absence of cycles; every bounded history of steps.',
 'Tests look at the flag for single columns; termination and stability over all orders need the whole state graph.',
 ['relax.cpp','soil_dynamics.cpp'],
 [('equilibrium flag','relax.cpp:RelaxTerrain/RelaxBodySoil'),('Iteration until equilibrium','soil_dynamics.cpp:Step')],
 ['SimOut::equilibrium_','SoilDynamics::Step'],[('equilibrium_','no soil moved in the last pass','types.hpp:SimOut')])
p('C07','No unstable slope escapes the active area',
 'Starting from any terrain, every interior cell whose slope exceeds the repose angle lies inside the area which the next step will examine, including the cells of the rows next to the grid border, for as long as soil keeps moving there. A relaxation pass examines exactly the area it is given and changes no column farther than one cell from it, and that area never leaves the grid interior.',
 ['histories','inputs','configurations'],
 'Every position of a pile in the grid (border rows included), every buffer size, grid shape and body position, over histories of steps.',
 'Tests use piles in the middle of the grid and set the areas by hand.',
 ['relax.cpp','soil_dynamics.cpp','body_pos.cpp','types.cpp'],
 [('Bounding box of the unstable cells plus buffer','relax.cpp:RelaxTerrain'),('Union with the area of the body','soil_dynamics.cpp:Step'),('Bounding box of the body plus buffer','body_pos.cpp:CalcBodyPos')],
 ['SimOut::relax_area_','SimOut::body_area_','SimOut::impact_area_'],
 [('relax_area_/body_area_/impact_area_','half open index rectangles','types.hpp:SimOut')])
p('C08','Terrain pushed by the body goes to the nearest free space',
 'When a wall enters the terrain, all the terrain above the underside of the lowest wall of that cell is moved out of the cell and no cell of the body is left with terrain above its underside. The soil goes to the eight lateral directions, ring after ring: a ring is only used when all free space below walls in the nearer rings is filled, free space below a wall is filled exactly up to its underside, and a cell without wall takes all that is left.',
 ['inputs','schedules','configurations'],
 'Every arrangement of intersecting cells and surrounding walls in a small neighbourhood, every random order of the eight directions (complete for single cells, bounded deviations for several).',
 'Tests use a few arrangements and one order each.',
 ['intersecting_cells.cpp'],
 [('Detection','intersecting_cells.cpp:LocateIntersectingCells'),('Ring search','intersecting_cells.cpp:MoveIntersectingBody')],
 ['MoveIntersectingBody','MoveIntersectingCells'])
p('C09','Carried soil caught by another wall moves along the body',
 'When the soil on a wall reaches into the wall above it, exactly the part above the underside of that wall is moved: outward along each of the eight directions it fills the free space between two walls, falls on the terrain where there is no wall or the wall is above the place it comes from, settles on a lower wall, and stops at a wall which blocks the way. It is discarded with a warning only when all eight directions are exhausted, and soil which does not reach the wall above is not touched.',
 ['inputs','schedules','configurations'],
 'Every arrangement of walls and soil along the directions of a small neighbourhood, every split of the soil in records, both wall slots, random orders of the directions.',
 'Tests use a few arrangements and one order each.',
 ['intersecting_cells.cpp'],
 [('Exploration of a direction','intersecting_cells.cpp:MoveBodySoil'),('Loop over records and directions','intersecting_cells.cpp:MoveIntersectingBodySoil')],
 ['MoveIntersectingBodySoil','MoveIntersectingCells'])
p('C10','Soil carried by the body follows its motion',
 'When the body moves, every record of carried soil is re-deposited on top of a wall of the new body position: at the rigidly moved location if a wall top lies there within one cell height, otherwise in the first of the eight neighbours, in order of the direction of motion, which has one, otherwise on the closest wall top of the nine cells. Its amount is kept (rounded to whole cells, less than a cell is dropped) and so is its location in the body frame; only without any wall around does it fall on the terrain, with a warning.',
 ['inputs','histories','configurations'],
 'Every translation direction and a set of rotations, every arrangement of wall tops in the 3x3 neighbourhood (both layers), several records per cell.',
 'Tests check a handful of motions with one wall arrangement each.',
 ['body_soil.cpp','utils.cpp'],
 [('Search order','body_soil.cpp:UpdateBodySoil'),('Rigid motion','utils.cpp:CalcRotationQuaternion')],
 ['UpdateBodySoil','SoilDynamics::Step'])
p('C11','The body occupies exactly the cells its surfaces cross',
 'For every pose, a cell of the grid holds a wall exactly where one of the open or closed faces making up the body (bucket: base, back and two sides; blade: front and back sheets, one cell apart) crosses the column of that cell, and the wall spans from the bottom of the lowest to the top of the highest height cell crossed there by each face, faces that overlap or touch being merged. Cells occupied in the previous pose but not in the new one are cleared.',
 ['inputs','histories','configurations'],
 'All poses of a lattice of positions and orientations (pitch, yaw, roll) for several bucket and blade shapes, cell sizes and rectangular grids, and sequences of two poses.',
 'Tests list the cells of about a dozen poses, mostly axis aligned.',
 ['body_pos.cpp','utils.cpp'],
 [('Face rasterisation','body_pos.cpp:CalcRectanglePos/CalcTrianglePos/CalcLinePos'),('Clearing of the old area','body_pos.cpp:CalcBodyPos')],
 ['CalcBodyPos','SimOut::body_'])
p('C12','Wall layers of a cell are merged as a union of intervals',
 'Adding height intervals to a cell one after the other leaves the union of these intervals: an interval which overlaps or touches an existing wall extends it, one inside an existing wall changes nothing, one touching both walls joins them into one, and a separate one takes the free wall layer. A third separate interval is merged with the nearest wall so that everything added stays covered.',
 ['inputs','histories'],
 'Every sequence of up to four intervals on a small height range, including at height zero, for a fresh cell and every reachable pair of walls.',
 'Tests cover single insertions; order dependence and the zero height convention need all sequences.',
 ['body_pos.cpp'],
 [('Interval merge','body_pos.cpp:IncludeNewBodyPos'),('Height extent of a cell','body_pos.cpp:UpdateBody')],
 ['IncludeNewBodyPos','UpdateBody','SimOut::body_'])
p('C13','An update happens exactly when the body moved half a cell',
 'A step is carried out if and only if some corner of the body is at least half of the smallest cell dimension away from where it was at the last step carried out, or none was carried out yet (a new body has no orientation); small motions accumulate because the recorded pose only changes with a carried out step. A refused step returns false and changes nothing (state, body, random stream); a carried out one returns true, records the given pose exactly, and warns when a corner moved more than two cells.',
 ['inputs','histories','configurations'],
 'Every sequence of motions from an alphabet of translations and rotations below, around and above the thresholds, for bucket and blade and several cell size ratios.',
 'Tests check single calls of the distance test, not the accumulation nor the absence of side effects.',
 ['utils.cpp','soil_dynamics.cpp','body_soil.cpp'],
 [('Distance of the six corners','utils.cpp:CheckBodyMovement'),('Early return','soil_dynamics.cpp:Step')],
 ['SoilDynamics::Step','CheckBodyMovement'])
p('C14','The consistency checks accept exactly the consistent states',
 'The state check accepts a state if and only if every cell of the body area follows the documented conventions on terrain, walls and soil, and the volume check accepts if and only if the recorded amounts match the soil layers cell by cell and the total number of soil cells equals the expected one. Neither modifies the state; every rejection logs a warning.',
 ['inputs'],
 'Every column over a small height range, valid or not, at every position of the body area (and outside); every single and double perturbation of amounts in valid states.',
 'Tests check one example per convention.',
 ['utils.cpp'],
 [('CheckSoil','utils.cpp:CheckSoil'),('CheckVolume','utils.cpp:CheckVolume')],
 ['CheckSoil','CheckVolume','SoilDynamics::Check'])
p('C15','Outputs go to fresh files and hold the complete state',
 'As long as one of the 100000 numbers is free, every write creates the lowest numbered file (five digits) that does not exist yet for its kind (terrain, bucket or blade) and leaves all other existing files untouched; the carried soil written together with a terrain carries its number. The terrain file lists every cell of the grid once with its position and height, the soil file every soil layer present (or one dummy point if the body carries none), the body file the corners of the faces in their documented order.',
 ['histories','inputs'],
 'Every set of pre-existing file numbers within a small range followed by sequences of writes, crossed with states with zero, one and two soil layers, bucket and blade.',
 'There are no tests of the writers that look at pre-existing files or full contents.',
 ['utils.cpp','soil_dynamics.cpp'],
 [('Search of the next number','utils.cpp:WriteSoil/WriteBody')],
 ['results directory'])
p('C16','Constructors accept exactly the documented arguments',
 'Grids, bodies and parameters are constructed if and only if their arguments satisfy the documented requirements, an invalid-argument error being raised otherwise. A constructed grid has consistent sizes: indices and positions correspond (centre index at zero, spacing of one cell, both extremes at the grid size; a size which is not a whole number of cells counts as the nearest one), areas and volumes match the cell sizes, a body keeps its vertices relative to its origin, and a new state is empty, of the size of the grid, with every active area covering the whole interior.',
 ['inputs','configurations'],
 'The product of boundary and interior values for every argument.',
 'Tests check one invalid value per argument with default others.',
 ['types.cpp','types.hpp'],
 [('Constructors','types.cpp')],['Grid','Bucket','Blade','SimParam','SimOut'])
p('C17','Initial terrain is quantised, bounded and reproducible',
 'Initialising the terrain sets every cell to a multiple of the cell height no larger in magnitude than the given amplitude (rounded), with the documented four octave noise of the permutation drawn; amplitude zero gives a flat terrain, opposite amplitudes give mirrored terrains. Nothing but the terrain changes, the permutation table is a permutation whatever is drawn, each one being equally likely, and the same draws give the same terrain.',
 ['inputs','schedules'],
 'Several grids and amplitudes with every draw sequence up to two deviations.',
 'No test covers initialisation.',
 ['soil_dynamics.cpp','utils.cpp'],
 [('Permutation shuffle and noise','soil_dynamics.cpp:Init'),('Simplex noise','utils.cpp:simplex_noise')],
 ['SoilDynamics::Init'])
p('C18','A step depends only on its inputs and the random draws',
 'Repeating a step from the same state, pose, parameters and random draws gives the same result bit for bit, whatever other simulations ran before or in between in the same process and whichever simulator object is used. A step leaves its grid, parameters and pose arguments, the body shape and any other state untouched.',
 ['histories','schedules'],
 'All interleavings of two independent simulations (bucket and blade, different grids) of a few steps each, compared with each simulation run alone.',
 'Every test is its own scenario; leaked static or shared state needs interleaved histories.',
 ['soil_dynamics.cpp','relax.cpp','intersecting_cells.cpp','body_soil.cpp','body_pos.cpp'],
 [('All state is in the arguments','soil_dynamics.hpp')],['SoilDynamics::Step'])
p('C19','Rigid body geometry is consistent',
 'Rotations by a quaternion (of any non zero norm) preserve lengths, angles and handedness and follow the documented convention, converting a cell to the body frame and back returns the cell, Euler angles convert to the quaternion of the same rotation with non negative real part, products compose rotations, normals are unit length and right handed, and the six corners of a body are its reference vertices moved rigidly, half a width on each side.',
 ['inputs'],
 'All combinations of lattices of angles, axes, norms, positions and body shapes, against double precision reference formulas.',
 'Tests check a few single values, mostly 90 degree rotations about one axis.',
 ['utils.cpp'],
 [('Quaternion helpers','utils.cpp')],
 ['CalcRotationQuaternion','AngleToQuat','MultiplyQuaternion','CalcNormal','CalcBodyFramePos','CalcBodyCornerPos'])
p('C20','No out of range access for a body inside the grid',
 'As long as the body and the reach of its soil stay inside the grid, no operation reads or writes outside its arrays, uses uninitialised values, leaks memory or fails to terminate, including next to each border and corner of the grid, for non square grids and for every number of iterations including zero.',
 ['inputs','histories','schedules','configurations'],
 'All positions of small bodies along every border and corner of several grids, with digging and dumping histories, under address and undefined behaviour sanitizers.',
 'Tests work in the middle of a grid and do not use sanitizers.',
 ['relax.cpp','intersecting_cells.cpp','body_soil.cpp','body_pos.cpp','utils.cpp'],
 [('Clamping of the active areas','relax.cpp, body_pos.cpp')],['every public function'])
p('C21','Results do not depend on location, layer slot or axis',
 'Moving the whole scene by whole cells in the plane or in height gives the same evolution moved by as much, for the same random draws, as long as the active areas do not reach the border of the grid and no cell or record lies within rounding of a boundary. For each phase which moves soil (avalanches of terrain and of carried soil, pushing of terrain and of carried soil) exchanging the two wall layers, mirroring the scene or exchanging the two horizontal axes gives the correspondingly transformed set of possible results over all random orders (columns with both walls inside the terrain excepted).',
 ['inputs','schedules','configurations'],
 'Every small configuration of columns, all random orders, each compared with its transformed twin; shifted histories of steps.',
 'Each code path is duplicated per slot and axis; tests exercise one copy or the other with different numbers.',
 ['relax.cpp','intersecting_cells.cpp','body_soil.cpp','body_pos.cpp'],
 [('Symmetric branches','relax.cpp, intersecting_cells.cpp')],['RelaxTerrain','RelaxBodySoil','MoveIntersectingCells','SoilDynamics::Step'])
p('C22','Every random order is possible and equally likely',
 'Given uniform draws, the order in which unstable cells, directions and carried soil are processed is a uniformly distributed permutation: each order results from exactly the same number of draw sequences, and no order is impossible. Hence the results are not biased toward an axis or a direction.',
 ['schedules'],
 'The complete tree of draws for each place where an order is randomised.',
 'A test run draws one order per seed; a biased shuffle passes every test.',
 ['relax.cpp','intersecting_cells.cpp','soil_dynamics.cpp'],
 [('Fisher-Yates shuffles','relax.cpp, intersecting_cells.cpp, soil_dynamics.cpp')],
 ['RelaxTerrain','RelaxBodySoil','MoveIntersectingBody','MoveIntersectingBodySoil','SoilDynamics::Step'])
p('C23','A step runs its phases in order and within its iteration budget',
 'A carried out step is the composition of its phases: place the body at the given pose, carry the soil along, push soil out of the body, then alternate terrain and carried soil relaxation (carried soil in random order) over the union of the body and relaxation areas until equilibrium or the iteration limit, whichever comes first. With a limit of zero no relaxation happens, and more iterations never start after equilibrium.',
 ['histories','configurations','schedules'],
 'Bounded histories with every iteration limit 0 to 4, several terrains and bodies, and deviations of the random draws, compared with the composition of the phases.',
 'No unit test calls a whole step.',
 ['soil_dynamics.cpp'],
 [('Step','soil_dynamics.cpp:Step')],['SoilDynamics::Step'])
p('C24','Active areas are the padded bounding boxes they stand for',
 'After a body is placed, the body area is the bounding box of all its corners (for a blade those of both sheets), rounded to cells and widened by the cell buffer on every side, with lower limits not below 1 and upper (exclusive) limits not above twice the half length of the grid. It contains every cell which holds a wall, and no other area changes. After a terrain relaxation pass which found unstable columns the relaxation area is the bounding box of these columns, widened and limited in the same way; a pass which found none leaves it as it was. Carried soil which avalanches onto the terrain extends the relaxation area to the column it fell on.',
 ['inputs','configurations','histories'],
 'All body positions on a lattice for several shapes, orientations, cell sizes, grids and buffers; spikes and holes at all cells and pairs of cells times examined areas; soil falling at all cells.',
 'Tests use bodies in the middle of one square grid with one buffer, and no test looks at an area next to the border.',
 ['body_pos.cpp','relax.cpp'],
 [('Body area','body_pos.cpp:CalcBodyPos'),('Relaxation area','relax.cpp:RelaxTerrain')],
 ['CalcBodyPos','RelaxTerrain','RelaxBodySoil'])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,x['title']
        f.write(json.dumps(x)+'\n')
print(len(P))
