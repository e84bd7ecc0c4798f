export const hrTimeToMilliseconds = (t) => t[0] * 1e3 + t[1] / 1e6;
