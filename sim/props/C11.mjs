import { fidelity } from '../fidelity.mjs';
export default fidelity('C11', ['sock', 'sock', 'sock', 'poll']);
