export const DEFAULT_CSV = "x,y\n0.0,0.1\n1.0,1.1\n2.0,2.1\n3.0,3.1\n";
