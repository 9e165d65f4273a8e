import json,subprocess
fixed=[("C02","0b60629","diagonalNDTensor lost a complex data type and rejected a scalar diagonal"),
("C07","714d10d","DiagonalTensor with scalar data, or data of the right size in another shape, ended up inconsistent"),
("C02","6296dcd","outer product of two diagonal tensors returned a diagonal tensor with the wrong number of states"),
("C01","203a1aa","outer product of a diagonal and a dense tensor lost complex data and crashed on scalars"),
("C01","6682d54","contractTwoTensors(bonds=...) paired the wrong legs when a bond was created in the other direction"),
("C04","c21d243","optimal order and cost of networks with diagonal tensors sharing no bond"),
("C03","b2d1158","greedy search failed on disconnected networks"),
("C03","d07d226","optimal search with the real dimensions failed on networks with rank-0 tensors"),
("C04","5d16e28","optimalCostResult before a sequence was generated"),
("C19","5404045","free edges and edge indices added after a query were not reported"),
("C19","3bc1eba","makeTensorGraph of a partial list followed links out of the list"),
("C05","acc4f85","copyTensorList(linkOutgoingBonds=True) did not take over the outgoing bonds"),
("C08","4a4447c","renameLabels with overlapping old and new names renamed a leg twice"),
("C08","061715d","sumOutLegByLabel applied the weights of the first leg to all legs"),
("C09","594feb6","sumOutLeg of a TensorLike failed"),
("C08","1d83538","moveLegsToFront changed the list it was given / the tensor's own leg list"),
("C02","69f921a","sumOutLeg of a DiagonalTensorLike failed"),
("C08","75e9b80","toMatrix with empty rows or columns"),
("C11","44ef227","tensorSVDDecomposition with rows or cols left out"),
("C06","78d4968","FiniteTensorNetwork kept the caller's name list"),
("C06","7a04a7f","FiniteTensorNetwork kept the sequence of the old structure after a change"),
("C15","a532764","antiferromagnetic Ising edges gave a NaN edge matrix"),
("C15","ac651d2","isolated Ising site"),
("C15","61ff48b","plaquetteIsingTensor with an integer weight"),
("C10","266dae6","mergeLink of a single bond with two names"),
("C08","0bf4d9a","outProduct given the tensor's own leg list"),
("C08","ac2761c","dtype of a DiagonalTensor"),
("C22","24172a2","floatRelativeEqual was never true for negative numbers or zeros"),
("C22","fed0580","ndEye of one dimension set only the first diagonal element"),
("C22","fedc72d","loadData used an alias that numpy no longer has"),
("C22","47e8a63","mapToDict gave the whole value list to every key"),
("C22","9268f7a","StringSet changed the length of new strings on every add and remove"),
("C22","dd1a352","isRealNumber refused numpy.float64, so Ising tensors failed with such couplings"),
("C22","e5eb5cf","getDiffError was not the sum of the squared element-wise distances"),
("C19","3960476","edges added after an edge query were not indexed"),
("C23","61cb5c8","a refused merge of several bonds of a diagonal tensor left the other tensor linked to removed legs"),
("C08","7de0d0a","a refused moveLegsToFront left the tensor without some of its legs"),
("C04","df6b1ca","contraction costs above 2**53 were rounded"),
("C23","0246b8a","a refused makeLink of several legs left the first of them linked"),
("C08","e7b09ef","a refused addTensorTag left some of the legs tagged"),
("C02","905f846","sumOutLeg of a diagonal tensor removed the leg although the weights were refused"),
("C06","e2ef768","a recorded out product changed when the caller changed its list of labels afterwards"),
("C19","57077a0","a graph lost edges when the caller changed the list getEdges returned"),
("C04","4739d87","optimalCostResult of a tensor graph ignored edges added after the last query"),
("C07","796289a","a tensor kept the list of legs it was made from and changed with it"),
]
find=[("C13","default-chi","FreeBoundaryMPS.getChi (src/CTL/examples/MPS.py) starts its search at -1 and takes the minimum: an MPS made without chi gets chi = -1 and a chi below the existing bonds is not raised; makeRandomMPS without chi takes the first of the given bond dimensions instead of the largest"),
("C12","repeated-labels","SchimdtDecomposition of tensors where one side of the cut carries the same label twice is refused (toMatrix by label, src/CTL/examples/Schimdt.py)"),
("C09","swap-bound","SchimdtDecomposition of two TensorLikes with swapLabels bounds the new bond by the bonds before the swap, the real tensors can have a larger one (src/CTL/examples/Schimdt.py)"),
("C17","square-two-tensors","SquareTRG(a, b) with two tensors raises AttributeError (aNorms used before it exists, src/CTL/examples/TRG.py)"),
("C17","triangle-density","TriangleTRG.logZDensity divides by the product of the degrees of freedom of A and B (9^step) instead of their sum (src/CTL/examples/TRG.py)")]
def line(p,h,w): return "fixed: property=%s %s %s"%(p,h,w)
e=[{"property":p,"status":"fixed","line":line(p,h,w)} for p,h,w in fixed]+[{"property":p,"status":"finding","key":k,"what":w} for p,k,w in find]
have=subprocess.run(['git','-C','/repo','log','--oneline'],capture_output=True,text=True).stdout
for p,h,w in fixed: assert h in have,h
json.dump({"entries":e},open('/verif/known_findings.json','w'),indent=1)
import re
allf=[l for l in have.splitlines() if ' fix: ' in ' '+l and not 'Revert' in l]
print([l for l in allf if l.split()[0] not in {h for _,h,_ in fixed}])
