# Gate sharing: the collection lists gates in order of first insertion; the map holds the identifiers
# seen. A gate pointer in the list is read as the identity of the gate.
package circuitcompiler
property P14
trackmaps
handles Gate

func newGateContainer
  ensures len(result.orderedmGates) == 0 && len(result.computedFactors) == 0
  ensures all(k, !has(result.computedFactors, k))
  fresh
func hashFactorsToBig f
  ensures result == fhash(f)
  fresh
  trusted SHA-256 of the rendered list (collision-free reading)
func Gate.setAndGetID gate
  modifies gate
  ensures result == gate.identifier && result != ""
  ensures carries(result, gate.gateType)
  ensures carrieslist(result, gate.leftIns) && carrieslist(result, gate.rightIns)
  ensures carrieslist(result, gate.expoIns) && carrieslist(result, gate.outIns)
func Gate.ID gate
  modifies gate
  ensures result == gate.identifier && result != ""
  ensures implies(old(gate.identifier) != "", gate.identifier == old(gate.identifier))
func gateContainer.contains g tok
  ensures iff(result, has(g.computedFactors, tok))
func gateContainer.Add g gate
  modifies g, gate
  requires len(g.orderedmGates) == len(g.computedFactors)
  requires !isnil(g.computedFactors)
  ensures implies(old(gate.identifier) != "", gate.identifier == old(gate.identifier))
  ensures has(g.computedFactors, gate.identifier)
  ensures len(g.orderedmGates) == len(g.computedFactors)
  ensures implies(!has(old(g).computedFactors, gate.identifier), len(g.orderedmGates) == len(old(g).orderedmGates) + 1 && g.orderedmGates[len(old(g).orderedmGates)] == handle(gate))
  ensures implies(has(old(g).computedFactors, gate.identifier), len(g.orderedmGates) == len(old(g).orderedmGates))
  ensures forall(k, 0, len(old(g).orderedmGates), g.orderedmGates[k] == old(g).orderedmGates[k])
  ensures all(k, implies(k != gate.identifier, iff(has(g.computedFactors, k), has(old(g).computedFactors, k))))
