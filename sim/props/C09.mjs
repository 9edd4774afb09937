import { fidelity } from '../fidelity.mjs';
export default fidelity('C09', ['open', 'rw', 'rw', 'fdop', 'pathop', 'stdout']);
