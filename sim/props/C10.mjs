import { fidelity } from '../fidelity.mjs';
export default fidelity('C10', ['clock', 'random', 'poll', 'yield'], { world(rng, w) { w.host = { seed: 'h' + rng.u32(), epoch: String(rng.pick([0n, 1n, 1700000000000000000n, 4102444800000000000n])), mono: String(rng.pick([0, 1e15, 5])), drift: rng.pick([1, 1, 2, 50]), res: rng.pick([1, 1000, 1000000]), env: [] }; } });
