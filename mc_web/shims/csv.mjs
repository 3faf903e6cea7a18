export const DEFAULT_CSV = "x,z,y\n0,1,5\n1,2,6\n2,4,7\n3,8,8\n";
