-------------------------------- MODULE Trig --------------------------------
(* Sine and cosine of multiples of 0.1 rad, in units of 10^-4.                *)
EXTENDS Integers
S10 == <<998, 1987, 2955, 3894, 4794, 5646, 6442, 7174, 7833, 8415, 8912, 9320, 9636, 9854, 9975, 9996, 9917, 9738, 9463, 9093, 8632, 8085, 7457, 6755, 5985, 5155, 4274, 3350, 2392, 1411, 416>>
C10 == <<9950, 9801, 9553, 9211, 8776, 8253, 7648, 6967, 6216, 5403, 4536, 3624, 2675, 1700, 707, -292, -1288, -2272, -3233, -4161, -5048, -5885, -6663, -7374, -8011, -8569, -9041, -9422, -9710, -9900, -9991>>
Sin(k) == IF k = 0 THEN 0 ELSE IF k > 0 THEN S10[k] ELSE -S10[-k]
Cos(k) == IF k = 0 THEN 10000 ELSE IF k > 0 THEN C10[k] ELSE C10[-k]
\* product of two such numbers, in the same unit (rounded towards minus infinity: error below one unit)
Mul(a, b) == (a * b) \div 10000
\* the camera rotation for omega, phi, kappa (Dracos 1996)
Rotation(om, ph, ka) ==
  LET cp == Cos(ph) sp == Sin(ph) co == Cos(om) so == Sin(om) ck == Cos(ka) sk == Sin(ka)
  IN << <<Mul(cp, ck), -Mul(cp, sk), sp>>,
        <<Mul(co, sk) + Mul(Mul(so, sp), ck), Mul(co, ck) - Mul(Mul(so, sp), sk), -Mul(so, cp)>>,
        <<Mul(so, sk) - Mul(Mul(co, sp), ck), Mul(so, ck) + Mul(Mul(co, sp), sk), Mul(co, cp)>> >>
Close(a, b, tol) == a - b <= tol /\ b - a <= tol
RotationOk(dm, om, ph, ka) == LET R == Rotation(om, ph, ka) IN \A i, j \in 1..3 : Close(dm[i][j], R[i][j], 6)
=============================================================================
