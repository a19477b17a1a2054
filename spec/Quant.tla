------------------------------- MODULE Quant --------------------------------
(* Quantiles of the standard normal and of chi-square distributions with 1..10
   degrees of freedom at the probabilities used by the drivers (generated once
   by tools/quant.py from scipy; 17 significant digits).                        *)
EXTENDS Rat
NormQ(pr) ==
   CASE pr = "0.8" -> Num("0.8416212335729143")
     [] pr = "0.9" -> Num("1.2815515655446004")
     [] pr = "0.95" -> Num("1.6448536269514722")
     [] pr = "0.975" -> Num("1.959963984540054")
     [] pr = "0.99" -> Num("2.3263478740408408")
     [] pr = "0.999" -> Num("3.090232306167813")
     [] pr = "0.7" -> Num("0.5244005127080407")
     [] pr = "0.6" -> Num("0.2533471031357997")
Chi2Q(pr, df) ==
   CASE pr = "0.8" -> <<Num("1.642374415149818"), Num("3.218875824868201"), Num("4.64162767608745"), Num("5.9886166940042465"), Num("7.289276126648961"), Num("8.558059720250668"), Num("9.803249900240838"), Num("11.03009143030311"), Num("12.24214546984707"), Num("13.441957574973113")>>[df]
     [] pr = "0.9" -> <<Num("2.705543454095404"), Num("4.605170185988092"), Num("6.251388631170325"), Num("7.779440339734858"), Num("9.236356899781123"), Num("10.644640675668422"), Num("12.017036623780532"), Num("13.36156613651173"), Num("14.683656573259837"), Num("15.987179172105265")>>[df]
     [] pr = "0.95" -> <<Num("3.841458820694124"), Num("5.991464547107979"), Num("7.814727903251179"), Num("9.487729036781154"), Num("11.070497693516351"), Num("12.591587243743977"), Num("14.067140449340169"), Num("15.50731305586545"), Num("16.918977604620448"), Num("18.307038053275146")>>[df]
     [] pr = "0.975" -> <<Num("5.023886187314888"), Num("7.377758908227871"), Num("9.348403604496148"), Num("11.143286781877796"), Num("12.832501994030027"), Num("14.44937533544792"), Num("16.012764274629326"), Num("17.534546139484647"), Num("19.02276779864163"), Num("20.483177350807388")>>[df]
     [] pr = "0.99" -> <<Num("6.6348966010212145"), Num("9.21034037197618"), Num("11.344866730144373"), Num("13.276704135987622"), Num("15.08627246938899"), Num("16.811893829770927"), Num("18.475306906582357"), Num("20.090235029663233"), Num("21.665994333461924"), Num("23.209251158954356")>>[df]
     [] pr = "0.999" -> <<Num("10.827566170662733"), Num("13.815510557964274"), Num("16.26623619623813"), Num("18.46682695290317"), Num("20.515005652432873"), Num("22.457744484825323"), Num("24.321886347856854"), Num("26.12448155837614"), Num("27.877164871256568"), Num("29.58829844507442")>>[df]
     [] pr = "0.7" -> <<Num("1.0741941708575846"), Num("2.407945608651872"), Num("3.664870783170316"), Num("4.878432966560408"), Num("6.0644299841549"), Num("7.231135331731982"), Num("8.383430828608386"), Num("9.524458193071833"), Num("10.656372006513017"), Num("11.780722627394017")>>[df]
     [] pr = "0.6" -> <<Num("0.7083263008007934"), Num("1.83258146374831"), Num("2.94616607310195"), Num("4.044626490649313"), Num("5.1318670744018196"), Num("6.2107571945267"), Num("7.283207632840307"), Num("8.35052546775366"), Num("9.413640094482842"), Num("10.473236231395456")>>[df]
=============================================================================
