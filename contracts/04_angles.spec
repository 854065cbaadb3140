spec NEAR(a, b) bool = abs(a - b) <= 0.000000001
// Angles: rasi of 30 degrees, angsa (degree), lipda (arcminute).
func DegreeToRal(d)
  props C05 C14
  requires abs(d) <= 1000000
  requires d == 0 || abs(d) >= 0.000000001
  ensures[C05] 0 <= result1 && result1 <= 29
  ensures[C05] 0 <= result2 && result2 <= 59
  ensures[C05] 30*result0 + result1 + real(result2)/60 <= d + 0.000000001
  ensures[C05] d < 30*result0 + result1 + real(result2 + 1)/60 + 0.000000001
  ensures[C14] deterministic

func DegreeToRalString(d)
  props C05 C14
  requires abs(d) <= 1000000
  requires d == 0 || abs(d) >= 0.000000001
  inline DegreeToRal
  ensures[C05] result == itoa(run(0, DegreeToRal, d)) + ":" + itoa(run(1, DegreeToRal, d)) + "°" + itoa(run(2, DegreeToRal, d)) + "'"
  ensures[C14] deterministic

func RalToDegree(x, y, z)
  props C05 C14
  requires abs(x) <= 100000 && abs(y) <= 100000 && abs(z) <= 100000
  ensures[C05] abs(result - real(floor((30*x + y + real(z)/60)*10000))/10000) <= 0.000000001
  ensures[C14] deterministic

func NormalizeDegree(d)
  props C05 C14
  requires abs(d) <= 1000000
  ensures[C05] 0 <= result && result <= 360
  ensures[C05] NEAR(result, d - 360*floor(d/360)) || NEAR(result, d) || NEAR(result, d - 360*floor(d/360) + 360) || NEAR(result, d - 360*floor(d/360) - 360)
  ensures[C05] implies(0 <= d && d <= 360, result == d)
  ensures[C14] deterministic
